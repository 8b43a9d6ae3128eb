"""Bounded exhaustive exploration of the real toffee code against reference models."""
