"""Laws: statements over the public interface that must be true for all inputs.

They are written as functions over the library (never executed): the checks
summarise the whole statement, with the library's current source inlined, and
ask that the resulting truth value is never false."""

LAWS = {}

LAWS['C10'] = '''
def equality_is_field_equality(a, b):
    """a: Event; b: Event | gspattern.Event.__eq__"""
    return (a == b) == (a.startTime == b.startTime and a.duration == b.duration and a.pitch == b.pitch and a.velocity == b.velocity and a.tag == b.tag)

def unequal_negates_equal(a, b):
    """a: Event; b: Event | gspattern.Event.__ne__"""
    return (a != b) == (not (a == b))

def patterns_unequal_negates_equal(a, b):
    """a: Pattern; b: Pattern | gspattern.Pattern.__ne__"""
    return (a != b) == (not (a == b))

def pattern_equality(a, b):
    """a: Pattern; b: Pattern | gspattern.Pattern.__eq__"""
    return (a == b) == (a.events == b.events and a.duration == b.duration and a.timeSignature == b.timeSignature and a.startTime == b.startTime)

def copies_are_equal(a):
    """a: Pattern | gspattern.Pattern.copy gspattern.Pattern.__eq__"""
    return a.copy() == a
'''

LAWS['C11'] = '''
def active_iff_in_half_open_interval(a, t):
    """a: Event; t: num | gspattern.Event.containsTime"""
    return bool(a.containsTime(t)) == (a.startTime <= t and t < a.startTime + a.duration)

def end_is_onset_plus_duration(a):
    """a: Event | gspattern.Event.endTime"""
    return a.endTime() == a.startTime + a.duration

def last_note_off_is_the_latest_end(p):
    """p: Pattern | gspattern.Pattern.lastNoteOff"""
    ends = [e.startTime + e.duration for e in p.events]
    return p.lastNoteOff() == (max(ends) if ends else None)

def active_events(p, t):
    """p: Pattern; t: num | gspattern.Pattern.activeEventsAtTime"""
    return p.activeEventsAtTime(t) == [e for e in p.events if e.startTime <= t and t < e.startTime + e.duration]
'''
