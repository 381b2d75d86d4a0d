"""aai - an abstract interpreter for the Python subset aeromet-py is written in.

It reads /repo's source (ast only; nothing of /repo is ever imported or run) and
computes over abstract values: character-class strings, linear/Laurent numeric
forms with intervals, calendar values, nullness, finite table images, allocation
-site heap objects with joins.
"""
