"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))

TONE, SIG, NOTE, TRACK, MIDI, CHORD, PROC, GENS = (
    'src/melodia/core/tone.py', 'src/melodia/core/signature.py', 'src/melodia/core/note.py',
    'src/melodia/core/track.py', 'src/melodia/io/midi.py', 'src/melodia/music/chord.py',
    'src/melodia/processing/track.py', 'scripts/generate_chords.py')

prop('C01', 'Tone notation round-trips for every pitch',
     'For every integer pitch, formatting the tone as notation (in the sharp or in the flat spelling) and parsing that text gives the same tone back. '
     'The text is the canonical scientific spelling: one of the letters A to G, at most one accidental (only "#" by default, only "b" when transposing down, none for natural tones), and the octave number floor(pitch / 12), so every pitch has exactly one text per spelling. '
     'The string form of a tone is its sharp notation.',
     ['inputs'], 'every integer pitch, negative and huge included, in both spellings',
     'test_tone.py samples about 20 spellings and pitches 0..29; the guarantee is over all integers.',
     [TONE], [('Tone.to_notation / Tone.from_notation', TONE), ('tone name tables', TONE)],
     ['Tone(p).to_notation()', 'Tone.from_notation(s).pitch', 'str(tone)'])

prop('C02', 'Notation text is read by its grammar and anything else is refused',
     'A text made of one uppercase letter A to G, any mix and number of "#" and "b", and an optional decimal octave with an optional minus sign (0 when absent) parses to the pitch 12*octave + natural pitch of the letter + number of sharps - number of flats. '
     'Any other text - lowercase names, missing letter, spaces, anything left over before or after the notation - is refused with ValueError, also where notation is accepted in place of a tone (notes, chords, middle C of the MIDI reader and writer).',
     ['inputs'], 'every notation string of the grammar (any accidental string, any octave) and every string outside it',
     'The suite parses some 35 hand-picked strings and one invalid one; the language is infinite and near-miss strings are what users mistype.',
     [TONE, NOTE, CHORD, MIDI], [('notation regular expression', TONE), ('Tone.from_notation', TONE)],
     ['Tone.from_notation(s)', 'Note(s)', 'chord.*(s)', 'MIDIWriter(middle_c=s)', 'MIDIReader(middle_c=s)'])

prop('C03', 'Tones obey pitch arithmetic: order, octave, transposition, frequency',
     'Tones compare with all six operators exactly as their integer pitches; transposition adds semitones exactly, composes, is undone by the opposite transposition, and leaves the original tone unchanged. '
     'The octave is floor(pitch / 12). '
     'Frequency is twelve-tone equal temperament around A4 (pitch 57) = base: it is proportional to the base, doubles exactly every octave, and strictly increases with pitch.',
     ['inputs'], 'every pair of pitches, every transposition, every positive base frequency (within float range)',
     'Tests check A in eleven octaves, two other frequencies and a handful of comparisons.',
     [TONE], [('Tone comparison operators, octave, transposed, to_frequency', TONE)],
     ['Tone operators', 'Tone.transposed', 'Tone.octave', 'Tone.to_frequency'])

prop('C04', 'Signatures compare by exact value, whatever their denominators',
     'For any two signatures the operators ==, !=, <, <=, > and >= agree with comparing the exact fractions nominator/denominator, whichever operand has the larger denominator; so they form one consistent total order and sorting signatures sorts them by value.',
     ['inputs'], 'every pair and every list of signatures, with equal or different power-of-two denominators and nominators of any size',
     'The suite only compares signatures where the left denominator is not the smaller one, at a dozen points.',
     [SIG], [('reduction to the common denominator and comparison operators', SIG)],
     ['Signature comparison operators', 'sorted(), max(), min() over signatures'])

prop('C05', 'Signature arithmetic is exact and never leaves the valid domain',
     'Sum, product, absolute value, rescaling to a larger denominator and normalisation of signatures give exactly the value of the corresponding fraction operation; rescaling yields exactly the requested denominator and normalisation yields lowest terms. '
     'Every signature has a non-negative nominator and a power-of-two denominator: construction of any other pair, and rescaling to a smaller or non-power-of-two denominator, raises ValueError. '
     'No operation changes its operands.',
     ['inputs', 'histories'], 'every signature and pair of signatures of any magnitude, and every chain of operations on them',
     'Seven sums and products and ten constructor calls are tested; precision or domain loss at large values or unusual denominators is out of their reach.',
     [SIG], [('constructor validation, to, normalized, +, *, abs', SIG)],
     ['Signature(n, d)', 'Signature.to', 'Signature.normalized', '+, *, abs()'])

prop('C06', 'Notes keep what they were given, whatever form it came in',
     'A note built from any accepted form (tone as Tone, integer or notation; duration as Signature or pair) exposes exactly that tone, duration and velocity, and defaults are duration 1/4 and velocity 0.75. '
     'Velocities outside [0, 1] (and NaN), invalid durations and invalid tones are always refused with ValueError or TypeError. '
     'transposed, with_duration and with_velocity return a note differing only in that one component, validated in the same way, and leave the original unchanged.',
     ['inputs', 'histories'], 'every tone, duration and velocity in every accepted form, every invalid argument, and every chain of derivations',
     'test_note.py samples a handful of values for each form and each derived copy.',
     [NOTE], [('Note.__init__ conversions and validation', NOTE), ('transposed / with_duration / with_velocity', NOTE)],
     ['Note(...)', 'note.tone / duration / velocity', 'derived notes'])

prop('C07', 'Notes are totally ordered by pitch, then duration, then velocity',
     'For any two notes the six comparison operators agree with lexicographic comparison of (pitch, exact duration value, velocity). '
     'In particular notes are equal exactly when all three components are equal in value, so 2/4 and 1/2 durations are interchangeable, and sorting notes gives one well-defined order.',
     ['inputs'], 'every pair and list of notes, including ties in leading components and durations written with different denominators',
     'Four comparisons of notes differing only in pitch and three equalities are tested.',
     [NOTE, SIG, TONE], [('Note comparison operators over triplets', NOTE), ('Signature comparison', SIG)],
     ['Note comparison operators', 'sorted(notes)'])

prop('C08', 'A track holds exactly the notes added, iterated in position order',
     'After any history of additions (single notes, chords, any iterable, explicit or implicit positions in any denominators, any order) interleaved with observations, iterating the track yields every added note exactly once at exactly its position value, in ascending order of position and, at one position, in ascending note order. '
     'Duplicates are kept, the number of notes reported is the number added, and observing the track (iterating, len, length, comparing, printing, exporting) never changes it.',
     ['histories', 'inputs'], 'every sequence of additions and observations on a track, constructor content included',
     'One fixed sequence of three additions is tested; interleavings of observation and addition, denominators that grow later and duplicates are not.',
     [TRACK], [('Track.add and rescaling of stored positions', TRACK), ('lazy sort in Track.__iter__', TRACK)],
     ['list(track)', 'len(track)'],
     [dict(name='stored (position, note) pairs', meaning='content of the track', where=TRACK),
      dict(name='sorted flag', meaning='whether the stored pairs are in order', where=TRACK)])

prop('C09', 'Track length is the latest note ending and implicit positions append there',
     'At every moment of every history the length of a track equals the maximum over its notes of position + duration as an exact value (0 for an empty track). '
     'A note added without a position is placed exactly at the length of the track at that moment; all notes of one chord or iterable share one position, and an addition that is empty changes nothing.',
     ['histories', 'inputs'], 'every sequence of additions, with positions and durations in any mix of denominators',
     'Three additions with growing ends are tested; ends that do not move the maximum, mixed denominators and long zero-length or overlapping histories are not.',
     [TRACK, SIG], [('running maximum end position', TRACK), ('default position in Track.add', TRACK)],
     ['track.length', 'positions in list(track)'],
     [dict(name='maximum end position', meaning='length of the track', where=TRACK)])

prop('C10', 'Tracks are equal exactly when signature and full contents are equal',
     'Two tracks are equal if and only if their time signatures have equal value and they contain the same notes at the same positions with the same multiplicity, independently of the order in which notes were added, of how positions and durations are written, and of what was observed before. '
     'Equality is symmetric and inequality is its negation: a missing, extra, moved, lengthened, transposed or re-voiced note, or a different signature, always makes tracks different.',
     ['inputs', 'histories'], 'every pair of tracks, in particular pairs differing by one note, one component or one multiplicity',
     'The suite compares tracks only with themselves and empty tracks with each other.',
     [TRACK, NOTE, SIG], [('Track.__eq__', TRACK), ('ordering used to align contents', TRACK)],
     ['track == other', 'track != other'])

prop('C11', 'The printed form of any object evaluates back to an equal object',
     'For every tone, signature, note and track, evaluating its repr with the class names in scope gives an equal object of the same type (for a track: same signature, same notes at the same positions, same length), and printing changes nothing.',
     ['inputs', 'histories'], 'every tone, signature, note and track, after any construction history',
     'No test evaluates a repr.',
     [TONE, SIG, NOTE, TRACK], [('__repr__ of the four classes', TRACK)], ['eval(repr(x))'])

prop('C12', 'Every exported file is a well-formed single-track MIDI file',
     'Whatever representable track and writer settings are used, the exported bytes are exactly one 6-byte format-0 header announcing one track and the configured resolution, followed by exactly one track chunk whose length field is exact and whose content parses completely as delta-time/event pairs under the Standard MIDI File rules: legal variable-length quantities, data bytes below 128, exactly one end-of-track as the last event and nothing after it.',
     ['inputs', 'configurations'], 'every track with representable pitches and signature, every resolution 1..32767, channel, middle C and tempo',
     'Only helper functions are tested at fixed values, and whole files only with the default settings; bytes are never parsed independently.',
     [MIDI], [('MIDIWriter.dump and its formatting helpers', MIDI)], ['MIDIWriter(...).dumps(track)', 'midi.dumps(track)'])

prop('C13', 'Exported events say exactly what the track says',
     'In the exported file each note of the track produces exactly one note-on and one note-off on the configured channel and no other note event appears: pitch is 60 plus the distance from middle C, the start is the note position rounded down to a pulse, the end is the start plus the duration rounded down to a pulse, and velocity is scaled to 0..127 rounded down. '
     'Events are in time order, a note that ends when another of the same pitch starts is released before the new one is struck, and simultaneous notes keep identical times. '
     'The time signature (both numbers as written) and the tempo (60,000,000/bpm microseconds, rounded down) are stated once at time 0.',
     ['inputs', 'configurations'], 'every track and every resolution, middle C, channel and tempo; gaps between events of any size the format allows',
     'The suite checks single helper outputs and round trips through its own reader, where symmetric errors cancel; settings other than the defaults are never exported.',
     [MIDI], [('conversion of positions to pulses, event ordering and delta coding', MIDI)], ['events decoded by an independent parser'])

prop('C14', 'Export then import gives back the same track',
     'For every track whose notes of equal pitch do not overlap, whose times are multiples of a pulse of the chosen resolution that are also multiples of 1/16384, and whose velocities are k/127 with k >= 1, importing the exported bytes with the same middle C returns a track equal to the original: same time signature, same notes, positions, durations and velocities, same length. '
     'This holds for every resolution, channel, tempo and middle C, for back-to-back notes, chords and zero-length notes, and for tracks of any size.',
     ['inputs', 'configurations'], 'every such track with every writer/reader configuration',
     'The suite round-trips random tracks with gaps, velocity 1.0 and the default configuration only, and its track comparison ignores missing notes.',
     [MIDI, TRACK], [('MIDIWriter.dump and MIDIReader.load', MIDI)], ['MIDIReader(m).loads(MIDIWriter(middle_c=m, ...).dumps(track)) == track'])

prop('C15', 'Times the format cannot express lose less than a pulse and no note is lost',
     'For any track whose notes of equal pitch do not overlap and whose velocities are at least 1/127, export followed by import keeps every note: same number of notes, same tones; every position and duration comes back not larger than the original and smaller by less than one pulse plus 1/16384, and velocity smaller by less than 1/127. '
     'Times expressible in pulses and in 1/16384 come back exact even when other notes of the track are not expressible.',
     ['inputs', 'configurations'], 'every non-overlapping track with arbitrarily fine positions and durations, and every resolution',
     'No test exports a time that is not a whole number of pulses.',
     [MIDI], [('rounding down to pulses in the writer', MIDI), ('conversion of ticks to signatures in the reader', MIDI)], ['loads(dumps(track)) compared note by note'])

prop('C16', 'Any valid format-0 MIDI file imports with exactly its notes',
     'For every valid format-0 file produced by other software, import returns exactly the notes of the file: each note-on (velocity above 0) paired with the next note-off of that pitch and channel, where note-on with velocity 0 counts as note-off and running status may be used; tone is relative to middle C, velocity is value/127, times are ticks over the resolution, exact when expressible in 1/16384 and otherwise less than 1/16384 too small. '
     'Everything else valid in such a file - other channel messages, system exclusive, meta events, unknown chunks, a longer header, releases without a strike, notes never released - is skipped without disturbing the notes, and so are system common and real-time messages (F1, F2, F3, F6, F8, FA, FB, FC, FE, with their 1, 2, 1 or 0 data bytes) that some recorders leave in. '
     'The time signature is that of the file (4/4 if it states none).',
     ['inputs', 'configurations'], 'every valid format-0 event stream on any mix of channels, any resolution, any event and chunk length up to the format limits',
     'The reader is only ever run on files written by this library, which contain one channel, no running status, no other events and no large chunks.',
     [MIDI], [('MIDIReader._parse_track event decoding and note pairing', MIDI), ('chunk reader', MIDI)], ['MIDIReader(...).loads(bytes)'])

prop('C17', 'Channel selection returns that channel, and no selection returns all of them',
     'Importing with a channel number returns exactly the notes of that channel with the time signature stated for that channel (or for the whole file); importing without one returns exactly the union, with multiplicity, of the notes of all channels. '
     'Equal pitches on different channels never interfere with each other, and asking for a channel that has no note events in a file that has some raises ValueError.',
     ['inputs', 'configurations'], 'every valid multi-channel file and every channel argument 0..15 or none',
     'No test reads more than one channel or passes a channel.',
     [MIDI], [('per-channel event lists, signatures and merge', MIDI)], ['loads(data, channel=c)', 'loads(data)'])

prop('C18', 'Import of arbitrary bytes ends with a usable track or a parsing error',
     'For every byte string - random, truncated, spliced or bit-flipped - import terminates and either returns a consistent track (ordered positions, velocities in [0, 1], length equal to the last ending) or raises MIDIParsingError. '
     'No other exception escapes when no channel is selected; with a channel selected, ValueError is raised only for a missing channel.',
     ['inputs', 'fault_sequences'], 'every byte string, every corruption of valid files, every channel argument',
     'No malformed file is ever read by the tests except through single helpers.',
     [MIDI], [('bounds-checked reader and MIDIParsingError raising sites', MIDI)], ['loads(bytes)', 'MIDIParsingError'])

prop('C19', 'Incomplete or unsupported files are refused, never half-read',
     'Every proper prefix of an exported file is refused with MIDIParsingError, and so is a file whose header or track chunk announces more bytes than follow (whichever byte of the length is wrong), that lacks the header or the track, whose track does not end with an end-of-track event, or whose header states a format other than 0, a track count other than 1, a time-code division or a zero resolution.',
     ['inputs', 'fault_sequences'], 'every exported file, every truncation point, every length and header field corruption',
     'No test reads a truncated or unsupported file.',
     [MIDI], [('chunk length check, header validation, end-of-data check', MIDI)], ['loads(damaged) raises MIDIParsingError'])

prop('C20', 'What cannot be expressed in MIDI is refused before anything is written',
     'Exporting a track with a tone outside MIDI pitches 0..127 for the chosen middle C, a time-signature nominator above 255, or a tempo outside the three-byte range raises an error (ValueError for tones) wherever in the track the problem is, and leaves the output file without a single byte written; the track is unchanged and exports normally once the problem is gone. '
     'Every representable track is accepted with every accepted setting. '
     'Resolutions outside 1..32767 and channels outside 0..15 are refused with ValueError at construction.',
     ['inputs', 'configurations', 'histories'], 'every track with the offending note at any place, every setting at and around its limits',
     'Limits are tested on single-note helpers with two settings; no test checks what has been written when export fails or exports with non-default resolutions.',
     [MIDI], [('validation in MIDIWriter.__init__ and note formatting before the first write', MIDI)], ['bytes received by the file object', 'exceptions'])

prop('C21', 'I/O errors surface and leave no trace in tracks, writers and readers',
     'If the file object raises at any read or write call, that very error reaches the caller: dump never reports success when a write failed, and load never returns a track when a read failed. '
     'After any sequence of such failures the same track, writer and reader give exactly the results they would have given without the failures.',
     ['fault_sequences', 'histories'], 'every failing call index, every exception type, every history of failed and successful calls on shared objects',
     'No test injects an I/O failure.',
     [MIDI], [('dump/load perform plain calls on the file object and keep state local', MIDI)], ['exception seen by the caller', 'result of the retry'])

prop('C22', 'Export and import entry points agree, are deterministic and side-effect free',
     'dump to a file writes exactly the bytes dumps returns, load from a file returns what loads returns, and the module functions equal the writer and reader classes with the default settings. '
     'Results depend only on the arguments: tracks with the same time signature and notes export to equal bytes whatever their history, and repeated, interleaved or previously failed use of one writer or reader changes nothing. '
     'The track given is never altered, the file is left open and is written or read from its current position, and imported tracks share no state with each other.',
     ['inputs', 'histories', 'configurations'], 'every track, setting and interleaving of calls on shared writers and readers',
     'Tests call dumps/loads once per object and never use file objects.',
     [MIDI, TRACK], [('thin wrappers around MIDIWriter.dump and MIDIReader.load', MIDI)], ['bytes written', 'tracks returned'])

prop('C23', 'Every chord function yields its chord on every base',
     'For every public chord function and every base, the result is a tuple of notes whose tones are the base plus the fixed interval list of the named chord (triads, suspended, sevenths, ninths, sixth-ninth, added ninth, elevenths) in ascending order starting with the base itself. '
     'All short and long names of one chord give equal results, and transposing the base transposes the chord.',
     ['inputs'], 'every chord function, every base pitch, each form of giving the base (integer, notation, Tone, Note)',
     'The chord module has no tests at all.',
     [CHORD, GENS], [('chord functions', CHORD)], ['chord.<name>(base, ...)'])

prop('C24', 'Chord notes share one duration and velocity with the documented defaults',
     'All notes of a chord have the duration and velocity passed explicitly (in any accepted form, including zero velocity and zero duration, written as given); what is not passed comes from the base if it is a note and otherwise is 1/4 and 0.75, independently for duration and velocity. '
     'Invalid bases, durations and velocities are refused as for notes, and the base is never changed.',
     ['inputs', 'configurations'], 'every combination of base form, explicit/omitted duration and velocity, for every chord function',
     'The chord module has no tests at all.',
     [CHORD, NOTE], [('parameter resolution shared by chord functions', CHORD)], ['chord.<name>(base, duration, velocity)'])

prop('C25', 'Regenerating the chord module reproduces the shipped chords',
     'Running the chord generator script writes a module that defines exactly the public chord functions of the shipped module, each returning the same notes for every base, duration and velocity.',
     ['inputs', 'programs'], 'every chord function and every argument combination, for the freshly generated module against the shipped one',
     'Neither the generator nor the chord module is tested.',
     [GENS, CHORD], [('chord table and templates', GENS)], ['scripts/generate_chords.py OUTPUT', 'functions of the generated module'])

prop('C26', 'Randomising velocities changes velocities and nothing else',
     'For every track and valid settings the result is a new track with the same time signature, the same length and, note for note, the same positions, tones and durations. '
     'The given track is left exactly as it was, and the two tracks are independent of each other afterwards.',
     ['inputs', 'configurations', 'histories'], 'every track (chords, duplicates, mixed denominators) and every valid setting',
     'The processing module has no tests.',
     [PROC, TRACK], [('randomize_velocities', PROC)], ['randomize_velocities(track, ...)'])

prop('C27', 'Random velocities respect the bounds and the requested distribution',
     'With minimum <= maximum every resulting velocity lies within [minimum, maximum]; with zero variance it is exactly the mean limited to those bounds; otherwise velocities are independent draws from the normal distribution with the given mean and variance (not standard deviation), limited to the bounds. '
     'Settings outside [0, 1], a negative variance or NaN are refused with ValueError before anything is computed.',
     ['inputs', 'configurations'], 'every setting of minimum, maximum, mean and variance, on tracks of any size',
     'The processing module has no tests.',
     [PROC], [('clamped gaussian draw and argument validation', PROC)], ['velocities of the result'])

prop('C28', 'Re-saving an imported file at its own resolution moves nothing',
     'For every valid format-0 file with a resolution up to 4096 ticks per quarter, importing it and exporting the result with the same resolution, channel and middle C reproduces every completed note with the same tick of start and end, pitch and velocity, so that repeating the cycle any number of times changes nothing.',
     ['inputs', 'configurations', 'histories'], 'every resolution, every set of note ticks, any number of import/export cycles',
     'Only files with notes on the binary grid and one cycle are tested.',
     [MIDI], [('ticks to signature and back', MIDI)], ['events of the re-exported file'])

prop('C29', 'Composing, processing, saving and reloading in any order stays faithful',
     'In any history that mixes building tracks from notes and chords, deriving notes, copying, randomising velocities, exporting and re-importing, every track always equals the model built from the documented meaning of the operations. '
     'Earlier exports and imported or processed copies are snapshots: later edits of one track never show in another, nor in bytes already produced.',
     ['histories', 'inputs'], 'every sequence of such operations over several live tracks',
     'No test performs more than one step of such a workflow.',
     [TRACK, NOTE, MIDI, CHORD, PROC], [('value semantics of notes and tracks across modules', TRACK)], ['tracks and bytes after every step'])

prop('C30', 'Human-readable text states what the object is',
     'For every object, str() and every way of formatting give: for a signature its nominator and denominator as written ("3/8"), for a tone its sharp notation, for a note "Note" with its duration, tone and velocity to three decimals ("Note 1/4 C#4 (0.750)"), and for a track "Track" with its time signature and its number of notes ("Track 4/4 with 12 notes"). '
     'Printing never changes the object.',
     ['inputs', 'histories'], 'every signature, tone, note and track of any size and history',
     'Tests check at most one or two texts per class, none for tracks that grow.',
     [TONE, SIG, NOTE, TRACK], [('__str__ of the four classes', TRACK)], ['str(x)', 'format(x)'])

prop('C31', 'Reading operations can be used concurrently and inside one another',
     'Operations that only look at tracks (iterating, counting, printing, comparing, copying, randomising velocities, exporting) and all uses of one MIDI writer or reader give, when several threads perform them on the same objects at the same time under any interleaving, exactly what each gives alone, and leave the tracks as they were. '
     'The same holds when the file object given to dump or load itself uses the same writer, reader or tracks before it returns. Threads that add notes to a track that others are using are not covered.',
     ['schedules', 'inputs'], 'every interleaving of reading operations on shared tracks, writers and readers, and every nested use through the file object',
     'Tests run in one thread with passive file objects.',
     [TRACK, MIDI, PROC], [('Track.__iter__, which orders the notes on demand', TRACK), ('per-call state of MIDIWriter and MIDIReader', MIDI)], ['results of each thread', 'bytes written', 'tracks afterwards'])

prop('C32', 'Deep copies and pickles are equal, independent objects',
     'Tones, signatures, notes and tracks survive copy.deepcopy and pickling (protocol 2 and later): the result has the same type and value, equals the original, and behaves like it in every later operation. '
     'A copied track is independent: adding notes to either one never shows in the other, and each grows exactly as the original would have.',
     ['inputs', 'histories'], 'every object in every state of its history (also tracks that were or were not yet iterated)',
     'No test copies or pickles anything.',
     [TONE, SIG, NOTE, TRACK], [('slots of the four classes', TRACK)], ['copy.deepcopy(x)', 'pickle.loads(pickle.dumps(x))'])

prop('C33', 'Wrong arguments are refused, and a refused call changes nothing',
     'Every constructor and method refuses arguments of the wrong kind or out of range with TypeError or ValueError: time signatures, durations and positions that are not a signature or a valid pair, anything but a note or an iterable of notes added to a track, tones that are neither a tone, an integer nor a notation, velocities outside [0, 1], middle C, resolution and channel settings. '
     'After any history of valid and refused calls every track is exactly what it would be had the refused calls never been made; when an iterable given to add fails in the middle (or its own error surfaces), only notes before the failure may have been added.',
     ['inputs', 'histories'], 'every wrong argument in every place, anywhere in a history',
     'Tests try a few wrong arguments on fresh objects and never look at the object afterwards.',
     [TONE, SIG, NOTE, TRACK, MIDI], [('argument checks of constructors', NOTE), ('Track.add', TRACK)], ['the error raised', 'the track afterwards'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
