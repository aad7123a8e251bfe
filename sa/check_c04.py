"""C04: results live on the triangulation of their operands."""
import frames, entries as E, api

# bodies whose target triangulation is equal by content, not by construction: the target is left open (C12 decides the labels)
DISTINCT = [('F', 'G'), ('F', 'H'), ('G', 'H')]   # unrelated triangulations really are different
OPEN_TARGET = {'Mapping.combine_isometries', 'MultiEdgeFlip.flip_mapping', 'Mapping.flip_mapping'}
def check(repo, rep):
    rep.rule('Every kernel operation is analysed once per receiver class by an abstract interpreter whose values carry the triangulation they live on (a symbolic frame); '
        'shortening, flipping, crushing and relabelling make new frames, maps carry a source and a target frame, branches and loops join frames pairwise. '
        'Rules: (frame) each returned lamination, homology class, map, edge or container lives on the frame that the operation\'s specification gives; '
        '(meet) no object is handed to an operation of an object on another frame; (mix) no weight or edge of one frame is added to, or used to read, an object of another; a list of moves is composed end to end; (refused) the operation can return for operands on the right triangulations.')
    from report import part
    for e in E.entries(repo):
        q = e.qual
        r = part(rep, frames.check_entry, repo, e, neq=DISTINCT)
        if r is None: continue
        p, d, u, I, rets = r
        rep.count('entries'); rep.count('returns', len(rets)); rep.count('functions visited', len(I.visited)); rep.count('calls', I.calls_seen)
        rep.count('result obligations discharged', d); rep.count('undecided results', u)
        if d: rep.sample(f'{e.name}: {d} returned values on the specified triangulation')
        for ev in I.events:
            if ev['rule'] in ('mix', 'meet'): rep.finding(ev['rule'], ev['where'], ev['detail'], ev['line'])
        if not rets and any(x[1] != 'NotImplementedError' for x in I.last_sink): rep.finding('refused', repo.where(e.node), 'operands on the triangulations that the operation is for are always refused', e.node.lineno)
        if q in OPEN_TARGET: continue
        for rule, text in p:
            if rule == 'frame': rep.finding('frame', repo.where(e.node), text, e.node.lineno)
    rep.need('entries', 400); rep.need('result obligations discharged', 300)
