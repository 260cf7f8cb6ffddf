"""pyvc: contract verification of the Python code in /repo.  See /verif/DESIGN.md."""
