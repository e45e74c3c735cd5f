__all__ = ['f2py']
