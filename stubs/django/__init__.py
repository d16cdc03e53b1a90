"""Assumed models of what the code uses of Django 1.8, for the lemmas (the contracts run by Jython use the real one)."""
