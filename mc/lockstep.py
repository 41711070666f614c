"""Breadth-first exploration of operation histories in lockstep with a model.

The implementation state is rebuilt from the history for every transition (live
objects are never forked), the model state is immutable and canonical, and a
history is only extended when its model state has not been reached before.
"""
import collections


def explore(ctx, prefix, enabled, model_step, model_init, real_init, real_step, observe, canon, depth, touch=None):
    """Explores every history that extends ``prefix`` up to ``depth`` events.

    With ``touch``, every history is also replayed with a read of everything
    before its last event, so that a value remembered from a read cannot hide:
    every history is the shorter part of another one, so this puts a read
    between any two consecutive edits."""

    def build(history):
        if touch is not None:
            real, model = real_init(), model_init()
            for k, ev in enumerate(history):
                if k == len(history) - 1:
                    touch(real)
                real = real_step(real, ev)
                model = model_step(model, ev)
            observe(real, model, list(history) + ["(with everything read before the last event)"])
            ctx.trace()
        real, model = real_init(), model_init()
        for ev in history:
            real = real_step(real, ev)
            model = model_step(model, ev)
        return real, model

    history = list(prefix)
    # the prefix itself must be a legal history
    model = model_init()
    for ev in history:
        if ev not in enabled(model):
            return
        model = model_step(model, ev)
    real, model = build(history)
    observe(real, model, history)
    ctx.ev(canon(model))
    ctx.trace()
    ctx.state(canon(model))
    seen = {canon(model)}
    frontier = collections.deque([history])
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= depth:
            continue
        _, model = build_model(model_init, model_step, hist)
        for ev in enabled(model):
            new_hist = hist + [ev]
            real, new_model = build(new_hist)
            ctx.step()
            observe(real, new_model, new_hist)
            key = canon(new_model)
            ctx.ev(key)
            ctx.trace()
            if key not in seen:
                seen.add(key)
                ctx.state(key)
                frontier.append(new_hist)


def build_model(model_init, model_step, history):
    model = model_init()
    for ev in history:
        model = model_step(model, ev)
    return None, model
