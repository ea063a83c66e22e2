S='src/io/mstream.cpp'
H='include/maec/io/mstream.hpp'
RD='''    get_stream()->read(byts, num);

    // Determine if we are in a bad state:

    if (!BaseFStream::good()) {'''
WR='''    this->get_stream()->write(byts, num);

    // Determine if we are in a bad state:

    if (!BaseFStream::good()) {'''
MUTS=[
('bug','no-stop-read',[(S,RD,RD.replace('!BaseFStream::good()','!BaseFStream::good() && !eof()'))]),
('bug','eof-only',[(S,RD,RD.replace('!BaseFStream::good()','eof()'))]),
('bug','write-eof',[(S,WR,WR.replace('!BaseFStream::good()','eof()'))]),
('bug','err-missing',[(S,'''    // Determine if we are in a bad state:

    if (!BaseFStream::good()) {

        // We are invalid, set error state:

        this->set_state(BaseMStream::mstate::err);
    }
}

void FIStream::stop()''','''}

void FIStream::stop()''')]),
('bug','order',[(S,'''    BaseMOStream::start();

    // Open the fstream:

    open();

    // Determine if we are in a bad state:

    if (!BaseFStream::good()) {

        // We are invalid, set error state:

        this->set_state(BaseMStream::mstate::err);
    }
''','''    open();

    // Determine if we are in a bad state:

    if (!BaseFStream::good()) {

        // We are invalid, set error state:

        this->set_state(BaseMStream::mstate::err);
    }
    BaseMOStream::start();
''')]),
('bug','noclose',[(S,'''    BaseMOStream::stop();

    // Close the fstream:

    close();''','''    BaseMOStream::stop();''')]),
('bug','basestop',[(S,RD+'''

        // Invalid, just close:

        this->stop();''',RD+'''

        // Invalid, just close:

        BaseMIStream::stop();''')]),
('bug','binary',[(H,'std::ifstream::in | std::ifstream::binary','std::ifstream::in')]),
('bug','app',[(H,'std::ofstream::out | std::ofstream::binary','std::ofstream::out | std::ofstream::binary | std::ofstream::app')]),
('bug','good',[(H,'return this->state == init || this->state == started;','return this->state != stopped;')]),
('bug','good2',[(H,'return this->state == init || this->state == started;','return this->state == started;')]),
('bug','seek',[(H,'this->get_stream()->seekp(pos);','this->get_stream()->seekp(pos, std::ios_base::cur);')]),
('bug','seek-twice',[(H,'this->get_stream()->seekg(pos);','this->get_stream()->seekg(pos < 0 ? 0 : pos - 1);')]),
('bug','fgood',[(H,'bool good() const { return this->fstream.good(); }','bool good() const { return !this->fstream.bad(); }')]),
('bug','fopen',[(H,'bool good() const { return this->fstream.good(); }','bool good() const { return this->fstream.is_open(); }')]),
('bug','eof',[(H,'return this->fstream.eof();','return !this->fstream.good();')]),
('bug','path',[(H,'{ this->filepath = path; }','{ if (filepath.empty()) { this->filepath = path; } }')]),
('bug','stopped',[(H,'this->state = stopped;','if (this->state != err) { this->state = stopped; }')]),
('bug','guard',[(S,'    // Call parent stop method:\n\n    BaseMIStream::stop();','    if (BaseMIStream::good()) { return; }\n    BaseMIStream::stop();')]),
('same','bool',[(S,RD,RD.replace('!BaseFStream::good()','get_stream()->fail() || get_stream()->bad() || get_stream()->eof()'))]),
('same','bool2',[(S,WR,WR.replace('if (!BaseFStream::good()) {','const bool ok = this->get_stream()->good();\n    if (!ok) {'))]),
('same','cstr',[(H,'this->fstream.open(filepath, mode);','this->fstream.open(filepath.c_str(), mode);')]),
('same','start',[(S,'''    BaseMOStream::start();

    // Open the fstream:

    open();

    // Determine if we are in a bad state:

    if (!BaseFStream::good()) {

        // We are invalid, set error state:

        this->set_state(BaseMStream::mstate::err);
    }
''','''    open();
    if (BaseFStream::good()) {
        BaseMOStream::start();
    } else {
        this->set_state(BaseMStream::mstate::err);
    }
''')]),
('same','closefirst',[(S,'''    BaseMIStream::stop();

    // Close the fstream:

    close();''','''    close();
    BaseMIStream::stop();''')]),
('same','isopen',[(H,'void close() { fstream.close(); }','void close() { if (fstream.is_open()) { fstream.close(); } }')]),
('same','good',[(H,'return this->state == init || this->state == started;','return !(this->state == err || this->state == stopped);')]),
('same','helper',[(S,'void FIStream::read(','template <class T> static void check(T* s) { if (!s->T::BaseFStream::good()) { s->stop(); } }\n\nvoid FIStream::read('),(S,RD+'''

        // Invalid, just close:

        this->stop();
    }''','''    get_stream()->read(byts, num);
    check(this);''')]),
]
