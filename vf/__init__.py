"""Harness binding the TLA+ specifications in /verif/tla to the code in /repo."""
