"""Symbolic execution of the real asyncapi3 sources (see DESIGN.md)."""
