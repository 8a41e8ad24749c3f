"""Deterministic simulation with fault injection for gradslam."""
