__all__ = ['primitive', 'super', 'sample', 'lindhard', 'atom']
