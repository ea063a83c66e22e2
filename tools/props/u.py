PROPS += [
dict(id='U01', title='A collection owns its objects, in order, and destroys each exactly once',
 statement='Whatever the sequence of operations, a collection holds the objects it was given in the order they were added, takes them out of the pointer they came in, counts them, returns exactly the one at the index asked for and refuses an index outside. Freeing one destroys exactly that object and moves the later ones up, releasing one hands it over undestroyed and leaves its place empty, and clearing, overwriting or ending the collection destroys exactly the objects it still owns, each once.',
 quantifier=dict(over=['histories', 'inputs'], text='all sequences of adding, reading, releasing, freeing, clearing, moving and ending, all objects'),
 why_tests_cant='Tests follow one sequence and cannot see a second destruction or a leak.',
 anchors=dict(files=['include/maec/utils.hpp'], state=[dict(name='objs', meaning='the objects owned', where='include/maec/utils.hpp')], mechanism=[dict(name='Collection', where='include/maec/utils.hpp')]),
 technique='abstract interpretation over symbolic objects with a reference list, all operation sequences up to a length',
 level_note='sequences enumerated up to a bound; exact for all objects'),
]
