"""Harness of C12: what adding a token or a label does to a list of tokens whose last element is known (the tokens before it are arbitrary).
Each function reports what was there before and what is there afterwards."""


def add_text(p, tokens, token, add_space):
    """-> (tokens added, content of the last token before, and after)"""
    n, old = len(tokens), tokens[-1]["content"]
    p.add_token(token, tokens, add_space)
    return len(tokens) - n, old, tokens[-1]["content"], p.current_str


def add_labelled(p, tokens, content, a, b):
    """-> (tokens added, labels of the last token before, and after)"""
    n, old = len(tokens), list(tokens[-1].get("labels", []))
    p.add_token({"type": "text", "content": content, "labels": [a, b]}, tokens)
    return len(tokens) - n, old, list(tokens[-1].get("labels", []))


def add_after(p, tokens, token, add_space):
    """-> (tokens added, content of the token that was the last one before and after, content of the last one, is the new one styled)"""
    n, last, old = len(tokens), tokens[-1], tokens[-1]["content"]
    p.add_token(token, tokens, add_space)
    return len(tokens) - n, old, last["content"], tokens[-1]["content"], "styles" in tokens[-1]


def add_same(p, tokens, token, add_space):
    """-> (tokens added, is the last one now the token itself, content of the token that was the last one before, and after)"""
    n, last, old = len(tokens), tokens[-1], tokens[-1]["content"]
    p.add_token(token, tokens, add_space)
    return len(tokens) - n, tokens[-1] is token, old, last["content"], p.current_str


def add_many(p, tokens, token, add_space):
    """-> (tokens added, content of the token that was the last one before, and after)"""
    n, last, old = len(tokens), tokens[-1], tokens[-1]["content"]
    p.add_token(token, tokens, add_space)
    return len(tokens) - n, old, last["content"]


def add_first(p, token):
    """-> (how many tokens there are when the first one is added, its content)"""
    tokens = []
    p.add_token(token, tokens)
    return len(tokens), tokens[0]["content"]


def label(p, tokens, name):
    """no construct is being processed -> (tokens added, the labels of the last token before, and after)"""
    n, old = len(tokens), list(tokens[-1].get("labels", []))
    p._handle_label(name, tokens)
    return len(tokens) - n, old, tokens[-1]["labels"]


def label_env(p, env, tokens, name):
    """inside a construct -> (tokens added, the labels of the construct before, and after, has the last token labels now)"""
    n, old = len(tokens), list(env.get("labels", []))
    p.current_env = env
    p._handle_label(name, tokens)
    return len(tokens) - n, old, env["labels"], "labels" in tokens[-1]


def label_alone(p, name):
    """neither a construct nor a token before -> (number of tokens, type and content of the first)"""
    tokens = []
    p._handle_label(name, tokens)
    return len(tokens), tokens[0]["type"], tokens[0]["content"]


def label_env_alone(p, env, name):
    """inside a construct, no token before -> (number of tokens, the labels of the construct before, and after)"""
    tokens = []
    old = list(env.get("labels", []))
    p.current_env = env
    p._handle_label(name, tokens)
    return len(tokens), old, env["labels"]
