"""Deterministic simulation of ipyparallel."""
