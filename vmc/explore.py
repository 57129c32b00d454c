"""Breadth-first exploration of operation histories on fresh real objects, with sound state merging."""
import collections


def bfs(ctx, build, ops, apply, check, key, depth, prefix=(), maxstates=None):
    """Explore every history prefix+h with len(h) <= depth, merging histories that reach equal keys.

    build() -> world; apply(world, op, hist) -> False to drop (undefined outcome); check(world, hist);
    key(world) -> canonical state."""
    def replay(hist, first=False):
        w = build()
        for i, op in enumerate(hist):
            # hist is None when the step was checked before, on a shorter history
            if apply(w, op, hist[:i + 1] if first else None) is False:
                return None
        return w

    prefix = tuple(prefix)
    ctx.at(prefix)
    w = replay(prefix, True)
    if w is None:
        return
    k = key(w)
    check(w, prefix)
    ctx.state(k)
    seen = {k}
    frontier = collections.deque([(prefix, 0)])
    while frontier:
        hist, d = frontier.popleft()
        if d >= depth:
            continue
        for op in ops:
            nh = hist + (op,)
            ctx.at(nh)
            w = replay(hist)
            r = apply(w, op, nh)
            ctx.step()
            if r is False:
                continue
            ctx.trace()
            k = key(w)
            check(w, nh)
            if k not in seen:
                seen.add(k)
                ctx.state(k)
                frontier.append((nh, d + 1))
                if maxstates and len(seen) >= maxstates:
                    ctx.note('state cap hit')
                    return
    ctx.sample({'last_history': list(hist), 'states_in_unit': len(seen)})
