__version__ = '0.2.0'
__author__ = 'stanfordnqp <stanfordnqp>'
__all__ = []
