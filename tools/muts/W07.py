S='src/io/mstream.cpp'
H='include/maec/io/mstream.hpp'
MIN='''    const std::size_t count =
        std::min(static_cast<std::size_t>(std::max(num, 0)), left);
'''
WALL='''    std::size_t offset = 0;

    // Determine if we need to overwrite instead of push_back:

    if (this->index < this->arr.size()) {

        // Determine the max value to copy to:

        const std::size_t max = std::min(this->index + num, this->arr.size());

        // Determine offset value:

        offset = max - this->index;

        // Copy values over:

        std::copy_n(byts, max - this->index, this->arr.begin() + this->index);

        // Increment index to max value:

        this->index = max;
    }

    // Do some back insertions:

    std::copy_n(byts + offset, num - offset, std::back_inserter(this->arr));

    // Configure index:

    this->index += num - offset;
'''
MUTS=[
('bug','nomin',[(S,MIN,'    const std::size_t count = static_cast<std::size_t>(std::max(num, 0)); (void)left;\n')]),
('bug','minsize',[(S,MIN,'    const std::size_t count = std::min(static_cast<std::size_t>(std::max(num, 0)), this->arr.size()); (void)left;\n')]),
('bug','stopend',[(S,'if (count != static_cast<std::size_t>(num)) {','if (this->index >= this->arr.size()) {')]),
('bug','nostop',[(S,'if (count != static_cast<std::size_t>(num)) {','if (left == 0) {')]),
('bug','from0',[(S,'std::copy_n(arr.begin() + static_cast<std::ptrdiff_t>(this->index), count,','std::copy_n(arr.begin() + (this->index < 4 ? this->index : 0), count,')]),
('bug','index-num',[(S,'this->index += count;','this->index += num;')]),
('bug','short1',[(S,'this->index < this->arr.size() ? this->arr.size() - this->index : 0;','this->index < this->arr.size() ? this->arr.size() - this->index - (this->index > 2) : 0;')]),
('bug','gap',[(S,'if (this->index > this->arr.size()) {','if (this->index > this->arr.size() + 1) {')]),
('bug','nooffset',[(S,'std::copy_n(byts + offset, num - offset,','std::copy_n(byts, num - offset,')]),
('bug','offset-after',[(S,'        offset = max - this->index;\n',''),(S,'        this->index = max;\n','        this->index = max;\n        offset = max - this->index;\n')]),
('bug','overwrite-index',[(S,'        this->index = max;\n','')]),
('bug','le',[(S,'''        this->arr.resize(this->index);''','''        this->arr.resize(this->index + 1);''')]),
('bug','trunc',[(S,WALL,'    this->arr.resize(this->index + num);\n    std::copy_n(byts, num, this->arr.begin() + this->index);\n    this->index += num;\n')]),
('bug','stale',[(S,WALL,'    auto it = this->arr.begin() + this->index;\n    if (this->index + num > this->arr.size()) { this->arr.resize(this->index + num); }\n    std::copy_n(byts, num, it);\n    this->index += num;\n')]),
('bug','seek8',[(H,'void seek(int pos) final { this->index = pos; }\n\n    /**\n     * @brief Copys','void seek(int pos) final { this->index = pos < static_cast<int>(arr.size()) ? pos : arr.size(); }\n\n    /**\n     * @brief Copys')]),
('same','resize',[(S,WALL,'    if (this->index + num > this->arr.size()) { this->arr.resize(this->index + num); }\n    std::copy_n(byts, num, this->arr.begin() + this->index);\n    this->index += num;\n')]),
('same','loop',[(S,WALL,'    for (int i = 0; i < num; ++i) {\n        if (this->index < this->arr.size()) { this->arr[this->index] = byts[i]; } else { this->arr.push_back(byts[i]); }\n        ++this->index;\n    }\n')]),
('same','insert',[(S,'    std::copy_n(byts + offset, num - offset, std::back_inserter(this->arr));','    this->arr.insert(this->arr.end(), byts + offset, byts + num);')]),
('same','readloop',[(S,'''    std::copy_n(arr.begin() + static_cast<std::ptrdiff_t>(this->index), count,
                byts);
''','''    for (std::size_t k = 0; k != count; ++k) { byts[k] = static_cast<char>(arr[this->index + k]); }
''')]),
('same','memcpy',[(S,'#include "io/mstream.hpp"','#include "io/mstream.hpp"\n#include <cstring>'),(S,'''    std::copy_n(arr.begin() + static_cast<std::ptrdiff_t>(this->index), count,
                byts);
''','''    if (count > 0) { std::memcpy(byts, arr.data() + this->index, count); }
''')]),
('same','reserve',[(S,'    // Offset to use when determining back insertion:','    this->arr.reserve(this->index + num);')]),
('same','stopif',[(S,'if (count != static_cast<std::size_t>(num)) {','if (num < 0 || count < static_cast<std::size_t>(num)) {')]),
]
