PROPS += [
dict(id='H01', title='Public headers can be included alone, again, in any order and many units',
 statement='Each public header compiles as the only include of a unit, when it is included again, and before or after every other header, with and without FFTW, ALSA and in debug configurations. Including a header puts no strong definition of a function or variable and no mutable variable of its own into a unit, so any number of units that include it can be linked into one program and share one state, and every class has the same layout in all of them',
 quantifier=dict(over=['configurations'], text='all public headers, all pairs and orders, all configurations of the build, any number of units'),
 why_tests_cant='Each test unit includes a few headers in one order and one configuration; a clash needs another order, a second unit or another macro.',
 anchors=dict(files=['include/maec'], mechanism=[dict(name='include guards, includes and inline definitions of every public header', where='include/maec')]),
 technique='compiler front-end queries over all header combinations and configurations; linkage analysis of the resulting units; comparison of record layouts',
 level_note='every ordered pair is covered in two orders of all headers (thorough: by itself as well); one compiler'),
dict(id='H02', title='Everything the public headers declare is defined once and can be used',
 statement='Every function, method and variable that a public header declares and that is not pure or deleted has exactly one definition, in the header or in one unit of the library, and every reference from the library or from a complete instantiation of a public template has a definition to link with. Every public class template instantiates completely for its element types and neighbours, in debug configurations too, the signal functions accept pointers and the iterators of vectors, deques and buffers, and every concrete module, stream and file class can be constructed and destroyed',
 quantifier=dict(over=['configurations'], text='all declarations of all public headers and all listed instantiations'),
 why_tests_cant='A member of a template or a declaration that no test uses is never compiled or linked.',
 anchors=dict(files=['include/maec', 'src'], mechanism=[dict(name='declarations of the public headers', where='include/maec'), dict(name='definitions of the library', where='src')]),
 technique='declarations from the syntax tree matched with the linkage of all definitions in the compiled units; explicit instantiation and construction witnesses that must type-check',
 level_note='the element types and neighbours of the instantiations are a fixed list (engine/wit/hdr); one compiler'),
]
PROPS += [
dict(id='H03', title='Objects start in a determined state, are copied whole and destroyed whole',
 statement='Every way of making an object of a public class, default initialisation, any constructor, copying or moving, leaves every number, flag, enumeration and pointer in it with a determined value, and nothing in it is read before it is set. A copy or move, made or assigned, takes every member from its source, except that what a new object aims at itself the copy aims at itself too, and a module the object owns points forward at its new owner. Every class with virtual functions can be deleted through a pointer to any of its bases',
 quantifier=dict(over=['inputs', 'histories'], text='all constructors, copies, moves and assignments of all public classes and the listed instantiations of the templates, all paths through them'),
 why_tests_cant='An indeterminate member often happens to hold zero, a forgotten member or a stale pointer shows only when that member is used after a copy, and a wrong destructor is undefined behaviour that usually goes unnoticed.',
 anchors=dict(files=['include/maec'], mechanism=[dict(name='member initialisers and constructors of every public class', where='include/maec'), dict(name='copy and move of sinks, parameters and modulated oscillators', where='include/maec/sink_module.hpp, include/maec/module_param.hpp, include/maec/base_oscillator.hpp'), dict(name='virtual destructors', where='include/maec/base_module.hpp, include/maec/io/mstream.hpp, include/maec/dsp/iir.hpp')]),
 technique='byte-precise definite-assignment analysis of all normalised constructors; member-by-member provenance of copies and moves; queries over virtual tables',
 level_note='the instantiations of templates and the default-initialised classes are a fixed list (engine/wit/init.cpp); standard library members are trusted to initialise themselves'),
]
