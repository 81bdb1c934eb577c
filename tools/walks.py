"""Walks that cover every transition of a state graph printed by TLC."""
from collections import defaultdict, deque
import json


def key(x):
    return json.dumps(x, sort_keys=True)


def walks(transitions, init, maxlen=60):
    """transitions: [pre, action, post]; init: the initial state.

    Returns a list of walks, each a list of (action, first time?) from init,
    covering every transition at least once."""
    out = defaultdict(list)
    todo = defaultdict(list)
    seen = set()
    for pre, act, post in transitions:
        a, b = key(pre), key(post)
        k = (a, key(act), b)
        if k in seen:
            continue
        seen.add(k)
        out[a].append((act, b))
        todo[a].append((act, b))
    left = len(seen)
    init = key(init)
    result = []
    while left:
        cur = init
        walk = []
        while left and len(walk) < maxlen:
            if todo[cur]:
                act, nxt = todo[cur].pop()
                left -= 1
                walk.append((act, True))
                cur = nxt
                continue
            # shortest path to a state with something to do
            prev = {cur: None}
            q = deque([cur])
            goal = None
            while q:
                x = q.popleft()
                if todo[x]:
                    goal = x
                    break
                for act, y in out[x]:
                    if y not in prev:
                        prev[y] = (x, act)
                        q.append(y)
            if goal is None:
                break
            path = []
            while prev[goal] is not None:
                goal, act = prev[goal]
                path.append((act, False))
            path.reverse()
            if walk and len(walk) + len(path) >= maxlen:
                break
            for act, new in path:
                walk.append((act, new))
            for act, _ in path:
                cur = next(y for b, y in out[cur] if b == act)
        if not walk:
            raise ValueError('unreachable transitions: %d' % left)
        result.append(walk)
    return result, len(seen)
