"""Analyse every entry of the kernel once."""
import os
from api import Api
import entries as E
from repo import AnalysisError

def sweep(repo, rep, over=None, only=None, **kw):
    """Yield (entry, interpreter, returns, exceptions) of every entry; an entry the engine cannot handle is noted, not guessed."""
    es = [e for e in E.entries(repo) if only is None or only(e)]
    for e in es:
        rep.count('entries')
        I = Api(repo, **kw)
        try: rets, sink, v, st = E.run_entry(I, e, over(e) if over else None)
        except RecursionError: raise
        except Exception as x:
            if os.environ.get('SA_DEBUG'): raise
            rep.count('entries not analysed'); rep.note(f'{e.name}: not analysed ({type(x).__name__}: {x})')
            continue
        rep.count('functions visited', len(I.visited)); rep.count('calls', I.calls_seen); rep.count('returns', len(rets))
        yield e, I, rets, sink, v, st
    if rep.counts.get('entries not analysed', 0) > max(5, len(es) // 10): raise AnalysisError('too many operations could not be analysed: ' + '; '.join(rep.notes[:5]))
