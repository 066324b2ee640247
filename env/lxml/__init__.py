"""Stand-in for lxml (see /verif/DESIGN.md, environment model)"""
