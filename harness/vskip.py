class Skip(Exception):
    """the generated case is not in the property's domain"""
