r"""C17: roman numerals (latex2json/utils/conversions.py)."""
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract


@spec(decreases="n")
def gr(n: Int) -> Str:
    """greedy subtractive numeral of n (upper case)"""
    return "" if n <= 0 else (
        "M" + gr(n - 1000) if n >= 1000 else "CM" + gr(n - 900) if n >= 900 else "D" + gr(n - 500) if n >= 500 else "CD" + gr(n - 400) if n >= 400 else
        "C" + gr(n - 100) if n >= 100 else "XC" + gr(n - 90) if n >= 90 else "L" + gr(n - 50) if n >= 50 else "XL" + gr(n - 40) if n >= 40 else
        "X" + gr(n - 10) if n >= 10 else "IX" + gr(n - 9) if n >= 9 else "V" + gr(n - 5) if n >= 5 else "IV" + gr(n - 4) if n >= 4 else "I" + gr(n - 1))


@spec
def digit(d: Int, one: Str, four: Str, five: Str, nine: Str, x: Str) -> Str:
    """the canonical numeral of one decimal digit, followed by x"""
    return (x if d == 0 else one + x if d == 1 else one + (one + x) if d == 2 else one + (one + (one + x)) if d == 3 else four + x if d == 4 else
            five + x if d == 5 else five + (one + x) if d == 6 else five + (one + (one + x)) if d == 7 else five + (one + (one + (one + x))) if d == 8 else nine + x)


# gr is the canonical form: thousands, then one digit group per decimal place
@lemma(trigger="gr(n)", fuel=7)
def units(n: Int):
    assert 0 <= n and n < 10
    return gr(n) == digit(n, "I", "IV", "V", "IX", "")


@lemma(trigger="gr(n), gr(m)", fuel=5)
def tens(n: Int, d: Int, m: Int):
    assert 1 <= d and d <= 9 and 0 <= m and m < 10 and n == 10 * d + m
    return gr(n) == digit(d, "X", "XL", "L", "XC", gr(m))


@lemma(trigger="gr(n), gr(m)", fuel=5)
def hundreds(n: Int, d: Int, m: Int):
    assert 1 <= d and d <= 9 and 0 <= m and m < 100 and n == 100 * d + m
    return gr(n) == digit(d, "C", "CD", "D", "CM", gr(m))


@lemma(trigger="gr(n)", measure="n")
def thousands(n: Int):
    assert n >= 1000
    return gr(n) == "M" + gr(n - 1000)


def value(s):
    w = dict(i=1, v=5, x=10, l=50, c=100, d=500, m=1000)
    return sum(w[c] if k + 1 >= len(s) or w[c] >= w[s[k + 1]] else -w[c] for k, c in enumerate(s))


@contract
class IntToRoman:
    target = "latex2json.utils.conversions:int_to_roman"
    types = {"num": "int"}
    returns = "str"
    gen = {"num": lambda rng, p: rng.choice([rng.randrange(0, 60), rng.randrange(0, 4000), rng.randrange(0, 20000)])}

    def cases(tier):
        return [{"num": n} for n in range(0, 5200)]

    def ensures(num, result):
        return result == lower(gr(num))

    def inv_acc(num, k: Int, s: Str):
        return s + gr(k) == gr(num)
