"""What each check runs: workload name of the harness, number of cases and time
cap (seconds) per tier."""

ASSUME = [
    'the facade implements std::sync / thread / time faithfully for what the crate uses (sequentially consistent memory, writer-preferring RwLock, virtual clock)',
    'a violation needing more threads, events or preemptions than the workloads have is not seen',
]

SEQ = 'one generated pipeline and history; non-trivial = at least one callback fired; distinct by (pipeline, observed trace)'


def seq(p, what, quick, thorough):
  return dict(run=p, what=what, rule=SEQ, quick=quick, thorough=thorough)


MT = 'one execution of a generated scenario under one schedule; non-trivial = at least one callback fired; distinct by (scenario, schedule as taken)'


def mt(p, what, quick, thorough):
  return dict(run=p, what=what, rule=MT, quick=quick, thorough=thorough)


# the number of cases is a ceiling: the time cap decides
BIG = 1 << 40
PLAN = {
    'C01': [seq('C01', 'pipelines over well- and ill-behaved sources', (BIG, 45), (BIG, 900))],
    'C02': [seq('C02', 'enumerated short inputs per operator, then random chains', (BIG, 35), (BIG, 700)),
            seq('C02re', 'the source emits its next items from inside the item callbacks', (BIG, 10), (BIG, 200)),
            mt('C02huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C03': [seq('C03', 'enumerated two-source interleavings per combinator, then random pipelines', (BIG, 35), (BIG, 700)),
            seq('C03re', 'the sources emit their next items from inside the item callbacks', (BIG, 10), (BIG, 200)),
            mt('C03huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C04': [seq('C04', 'errors injected into pipelines, recovery operators', (BIG, 45), (BIG, 900)),
            mt('C04huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C05': [seq('C05', 'unsubscribe at every place of a history, re-entrant, repeated, Using', (BIG, 20), (BIG, 300)),
            mt('C05sub', 'handles, clones and guards of one subscription on several threads; Subscription::new', (BIG, 8), (BIG, 120)),
            mt('C05mt', 'random pipelines, a thread per source, unsubscribing and watching threads', (BIG, 25), (BIG, 600))],
    'C06': [seq('C06', 'every ending cause over probing sources', (BIG, 25), (BIG, 400)),
            mt('C06mt', 'random pipelines, a thread per source: what is still held at quiescence', (BIG, 25), (BIG, 600)),
            mt('C06cyc', 'one pipeline subscribed to and ended over and over on sources that live on: heap blocks must not pile up', (BIG, 10), (BIG, 200))],
    'C07': [seq('C07', 're-entrant callbacks on one thread', (BIG, 15), (BIG, 200)),
            mt('C07mt', 'random pipelines with re-entrant callbacks, a thread per source', (BIG, 20), (BIG, 400)),
            mt('C07mix', 'the scenarios of all concurrent workloads, judged for progress only', (BIG, 25), (BIG, 600))],
    'C08': [mt('C08', 'scheduler posts and aborts from several threads and from inside tasks', (BIG, 35), (BIG, 900)),
            mt('C08huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C09': [mt('C09', 'observe_on / subscribe_on over threaded sources, unsubscribes', (BIG, 40), (BIG, 900)),
            mt('C09huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C10': [mt('C10', 'histories of the four subjects, one thread, re-entrant observers', (BIG, 25), (BIG, 400)),
            mt('C10mt', 'the four subjects with concurrent producers, joiners and leavers', (BIG, 20), (BIG, 400)),
            mt('C10huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C11': [mt('C11', 'merge, flat_map, zip, concat, amb, take over emitting threads', (BIG, 45), (BIG, 900)),
            mt('C11huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C12': [mt('C12', 'the subjects with concurrent producers, joiners and leavers', (BIG, 45), (BIG, 900)),
            mt('C12huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C13': [mt('C13', 'publish, ref_count, replay: histories on one thread', (BIG, 20), (BIG, 400)),
            mt('C13mt', 'publish, ref_count, replay with joiners, leavers and emitters on threads', (BIG, 25), (BIG, 500)),
            mt('C13huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C14': [seq('C14', 'two or three subscriptions of one observable', (BIG, 30), (BIG, 600)),
            mt('C14mt', 'subscribers of one pipeline with threads and clocks in it, against the only subscriber of a fresh one', (BIG, 20), (BIG, 400)),
            mt('C14huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C15': [mt('C15', 'time operators and schedulers nested, subscriptions ended in every way', (BIG, 30), (BIG, 600)),
            mt('C15mt', 'random pipelines with worker threads', (BIG, 20), (BIG, 400)),
            mt('C15cyc', 'one pipeline subscribed to and ended over and over', (BIG, 8), (BIG, 150))],
    'C16': [mt('C16', 'time sources and operators on the virtual clock', (BIG, 40), (BIG, 900)),
            mt('C16huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C17': [seq('C17', 'drop tokens in callbacks, closures and items', (BIG, 25), (BIG, 400)),
            mt('C17mt', 'the same with a thread per source', (BIG, 20), (BIG, 400)),
            mt('C17cyc', 'one pipeline subscribed to and ended over and over on all four kinds of subject', (BIG, 8), (BIG, 150)),
            mt('C17huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C18': [mt('C18', 'to_vec futures driven by several executors against emitting threads', (BIG, 40), (BIG, 900)),
            mt('C18huge', 'thousands of items, hundreds of participants, against a plain list', (BIG, 4), (BIG, 60))],
    'C19': [mt('C19', 'random pipelines whose inputs race on threads', (BIG, 45), (BIG, 900))],
}
