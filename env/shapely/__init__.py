"""Stand-in for shapely"""
