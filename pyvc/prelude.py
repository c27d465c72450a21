"""Library functions given by their definition in Python; the engine inlines them."""


def resub(_pat, _repl, _subj):
    _out = ""
    _pos = 0
    for _m in _pat.finditer(_subj):
        _out += _subj[_pos:_m.start()]
        _out += _repl(_m)
        _pos = _m.end()
    _out += _subj[_pos:]
    return _out


def resub_text(_pat, _repl, _subj):
    _out = ""
    _pos = 0
    for _m in _pat.finditer(_subj):
        _out += _subj[_pos:_m.start()]
        _out += _repl
        _pos = _m.end()
    _out += _subj[_pos:]
    return _out
