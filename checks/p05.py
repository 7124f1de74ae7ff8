"""P05: challenge-only verification (see p04)."""
import p04
def run(c): p04.run(c, "p05")
