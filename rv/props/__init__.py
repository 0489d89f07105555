from rv import lib  # noqa: F401  (puts the tree under test on the path before anything imports it)
