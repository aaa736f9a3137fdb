"""Runtime monitoring of pyirf, see /verif/DESIGN.md"""
