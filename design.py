#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between the marker lines) from properties.jsonl, props.py and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS
# what the answer of the code is compared with
O = {
 'C01': 'a plain array of the bytes produced and not consumed, kept by the harness; bytes and lengths symbolic',
 'C02': 'the same arrays, one for each buffer of a copied, moved, swapped or self-assigned pair',
 'C03': 'the bytes the other end wrote, in the order of the kernel model; the result of each call against what the kernel had',
 'C04': 'what arrives at the other end plus what is still buffered equals what was put in',
 'C05': 'bytes sent by one end against bytes received by the other, for each way of making a pair',
 'C06': 'the table of open descriptors of the kernel model, before, between and after moves, closes and destructions',
 'C07': 'descriptor flags in the kernel model before and after; the model\'s flags start symbolic',
 'C08': 'the option table of the socket in the kernel model; every option is compared after setting one',
 'C09': 'the address bytes in the `sockaddr` given to the model and back, against the text forms computed by the harness',
 'C10': 'the queue of connections of the kernel model: which are accepted, which are left, with which addresses',
 'C11': 'datagrams sent with sender and length, in order, against the datagrams taken',
 'C12': 'what each direction still carries after one was shut down by either end',
 'C13': 'handlers run, by descriptor, event and priority, against what was registered and ready',
 'C14': 'the interest list of the epoll model against a reference set of registrations, after any history and failing calls',
 'C15': 'termination of the loop and registrations counted after calls from another thread; data races are violations',
 'C16': 'the sequence of callbacks of each connection against the life of the connection played by the harness as the peer',
 'C17': 'number of connections of each worker, counted by the harness in the callbacks by thread',
 'C18': 'number of connections made, by target, in the kernel model and in the callbacks',
 'C19': 'number of live threads and open descriptors after shutdown; a deadlock is a violation',
 'C20': 'count and order of executions of each task; deadlocks and data races are violations',
 'C21': 'life cycle of the thread in the thread model against the answers given; misuse must raise',
 'C22': 'the text read from the descriptor of the level, cut into lines, against what each thread logged',
 'C23': 'order of `notify` and of the end of each `wait`; nobody waits after the notification',
 'C24': 'number of callers inside when the first leaves; too many callers must raise',
 'C25': 'owners inside counted; memory order by the race detector; results of `try_lock`; error numbers of the model',
 'C26': 'reference state of the guard and ownership in the lock model after each operation',
 'C27': 'number of waiters woken against notifications; lost wake-ups are deadlocks',
 'C28': 'count of tokens; blocking takers; creators and names in the model',
 'C29': 'contents through each mapping; sizes of the segments; who is the creator; mappings released',
 'C30': 'bytes the played child wrote and read, its status, number of `waitpid` and `kill` calls',
 'C31': 'arguments, environment, descriptors, signal mask and dispositions at the `execvp` of the model',
 'C32': 'list of (time, task) triggers in modelled time against the multiples of the periods',
 'C33': 'order of start, timed and end tasks by thread and time; destruction at chosen moments',
 'C34': 'a second, naive implementation over symbolic strings; splitting and joining as inverses',
 'C35': 'a second, naive implementation over symbolic strings',
 'C36': 'divisibility and maximality/minimality stated in bit-vector arithmetic over symbolic numbers',
 'C37': 'whole second, not before the point, at most one second later, for symbolic 64-bit points',
 'C38': 'the signal mask, pending set and handlers of the signal model before and after, masks symbolic',
 'C39': 'type and error number of the exception for every call made to fail with any error number',
 'C41': 'the symbol tables of the libraries of the model; a handle is closed once',
 'C42': 'the text produced by the format model for the time asked for; times symbolic',
 'C43': 'as C16 with the harness as the server',
 'C44': 'bytes sent by one side against bytes received by the other, both sides being the library',
 'C45': 'the results of the same exchange under other values of the tuning parameters',
 'C46': 'the clock of the model after the call: not before the moment, and at most one step of the clock and the lateness of the wake-up after it',
}


def table():
    out = []
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    for d in props:
        i = d['id']
        if i not in PROPS:
            continue
        P = PROPS[i]
        hs = P['harness'] if isinstance(P['harness'], list) else [P['harness']]
        races = [r['entry'] for r in P['runs'] if r.get('race')]
        ents = []
        for r in P['runs']:
            if r['entry'] not in ents:
                ents.append(r['entry'])
        out += ['**%s %s.** Compared with: %s.' % (i, d['title'], O[i]), 'Entries (%s): %s.' % (', '.join(sorted(hs)), ', '.join('`%s`' % e for e in ents)) + (' Data races: %s.' % ', '.join('`%s`' % e for e in sorted(set(races))) if races else ''), 'Bounds (thorough in brackets): %s.' % P.get('bounds', ''), '']
    return '\n'.join(out)


def seeds():
    rows = ['| change | property | what it needs |', '|---|---|---|']
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(f))
        rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], re.sub(r'\s+', ' ', m['needs']).replace('|', '/')[:160]))
    return '\n'.join(rows)


def main():
    f = V + '/DESIGN.md'
    s = open(f).read()
    for name, text in (('properties', table()), ('seeds', seeds())):
        a, b = '<!-- %s -->' % name, '<!-- end of %s -->' % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + '\n' + text + '\n' + s[j:]
    open(f, 'w').write(s)


if __name__ == '__main__':
    main()
