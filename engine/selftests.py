"""Small positive examples: each rule must fire on a known-bad miniature on every run."""


def run(pid, ctx):
    return []
