"""Harness of C05: what the organizer does with one token of the document, whatever has been counted before it.
Each function puts a builder into the given state, lets it take one token (latex2json/structure/builder.py) and reports the number
the token got and the counters afterwards."""


def counters(b):
    return (b.part_number, b.section_numbers[1], b.section_numbers[2], b.section_numbers[3], b.section_numbers.get(4, 0),
            b.math_env_number, b.equation_number, b.table_env_number, b.figure_env_number, b.algorithm_number)


def setup(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    b.part_number = part
    b.section_numbers = {1: s1, 2: s2, 3: s3, 4: s4}
    b.math_env_number, b.equation_number, b.table_env_number, b.figure_env_number, b.algorithm_number = thm, eq, tab, fig, alg


def item(b, kind, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    """an equation, table, figure, algorithm or theorem with text in it -> (number or None, counters)"""
    setup(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)
    token = {"type": kind, "content": "x", "numbered": numbered}
    b._recursive_organize([token], appendix)
    return token.get("numbering"), counters(b)


def equation(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return item(b, "equation", numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def table(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return item(b, "table", numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def figure(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return item(b, "figure", numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def algorithm(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return item(b, "algorithm", numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def theorem(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return item(b, "math_env", numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def plain(b, kind, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    """a token that says nothing about being numbered"""
    setup(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)
    token = {"type": kind, "content": "x"}
    b._recursive_organize([token], appendix)
    return token.get("numbering"), counters(b)


def section(b, level, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    setup(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)
    token = {"type": "section", "title": "t", "level": level, "numbered": numbered}
    b._recursive_organize([token], appendix)
    return token.get("numbering"), counters(b)


def section0(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return section(b, 0, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def section1(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return section(b, 1, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def section2(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return section(b, 2, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def section3(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return section(b, 3, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def section4(b, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    return section(b, 4, numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


def appendix(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    setup(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)
    b._recursive_organize([{"type": "appendix", }], False)
    return counters(b)


def cleared(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg):
    """a builder that is cleared"""
    setup(b, part, s1, s2, s3, s4, thm, eq, tab, fig, alg)
    b.clear()
    return counters(b)


def deep(b, level, numbered, appendix, known, s1, s2, s3, s4, s5, s6):
    """a section of level 4, 5 or 6 in a document where deeper levels have been counted already (known) or never: the path of the counters
    with the own one raised, and the counters of the levels below started again"""
    n = [s1, s2, s3, s4, s5, s6] if known else [s1, s2, s3, 0, 0, 0]
    b.section_numbers = {1: s1, 2: s2, 3: s3, 4: s4, 5: s5, 6: s6} if known else {1: s1, 2: s2, 3: s3}
    token = {"type": "section", "title": "t", "level": level, "numbered": numbered}
    b._recursive_organize([token], appendix)
    want = None
    if numbered:
        n[level - 1] += 1
        for i in range(level, 6):
            n[i] = 0
        want = chr(64 + s1) if appendix else str(s1)
        for i in range(1, level):
            want = want + "." + str(n[i])
    if token.get("numbering") != want:
        return False
    for i in range(6):
        if b.section_numbers.get(i + 1, 0) != n[i]:
            return False
    return True


def deep4(b, numbered, appendix, known, s1, s2, s3, s4, s5, s6):
    return deep(b, 4, numbered, appendix, known, s1, s2, s3, s4, s5, s6)


def deep5(b, numbered, appendix, known, s1, s2, s3, s4, s5, s6):
    return deep(b, 5, numbered, appendix, known, s1, s2, s3, s4, s5, s6)


def deep6(b, numbered, appendix, known, s1, s2, s3, s4, s5, s6):
    return deep(b, 6, numbered, appendix, known, s1, s2, s3, s4, s5, s6)
