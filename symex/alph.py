"""Character classes of the harness inputs (shared by both execution modes)."""
LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
ALPHA = LOWER + UPPER
DIGITS = "0123456789"
ALNUM = ALPHA + DIGITS
