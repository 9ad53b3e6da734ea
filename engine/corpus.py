def fallback(p, tasks, seed, tier):
    return []
