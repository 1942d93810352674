"""Stand-in: the board definitions are not installed here."""
