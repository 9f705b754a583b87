"""Deterministic simulation of pySOT with fault injection."""
