"""Exhaustive-exploration (model checking) framework for pfnet/pfrl."""
