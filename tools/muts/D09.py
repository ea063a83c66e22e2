H='include/maec/amp_module.hpp'
L1='''        for (std::size_t i = 0; i < this->buff.size(); ++i) {

            this->buff.at(i) *= this->get_value();
        }'''
L2=L1.replace('*=','+=')
MUTS=[
('bug','frames',[(H,L1,L1.replace('this->buff.size()','this->buff.channel_capacity()'))]),
('bug','outbuf',[(H,L2,L2.replace('this->buff.size()','static_cast<std::size_t>(this->get_info()->out_buffer)'))]),
('bug','from1',[(H,L1,L1.replace('i = 0','i = 1'))]),
('bug','last',[(H,L2,L2.replace('i < this->buff.size()','i + 1 < this->buff.size()'))]),
('bug','step',[(H,L1,L1.replace('++i','i += this->buff.channels()'))]),
('bug','clip',[(H,L1,L1.replace('this->buff.at(i) *= this->get_value();','this->buff.at(i) = std::min(1.0, this->buff.at(i) * this->get_value());'))]),
('bug','zero-skip',[(H,L2,L2.replace('this->buff.at(i) +=','if (this->buff.at(i) != 0) this->buff.at(i) +='))]),
('bug','setabs',[(H,'void set_value(double val) { this->value = val; }','void set_value(double val) { this->value = val < 0 ? -val : val; }')]),
('bug','dbl',[(H,L2,L2.replace('this->buff.at(i) += this->get_value();','this->buff.at(i) += this->get_value() * static_cast<double>(this->buff.channels());'))]),
('bug','neighbor',[(H,L1,L1.replace('this->buff.at(i) *= this->get_value();','this->buff.at(i) = this->get_value() * this->buff.at(i == 0 ? 0 : i - 1);'))]),
('same','iter',[(H,L1,'''for (auto iter = this->buff.ibegin(); iter != this->buff.iend(); ++iter) { *iter *= this->get_value(); }''')]),
('same','range',[(H,L1,'''for (auto& s : this->buff.buff) { s *= this->get_value(); }''')]),
('same','transform',[(H,L2,'''std::transform(this->buff.ibegin(), this->buff.iend(), this->buff.ibegin(), [this](double inv) { return this->get_value() + inv; });'''),(H,'#include <cstddef>','#include <cstddef>\n#include <algorithm>')]),
('same','local',[(H,L1,'const double v = this->get_value(); const auto n = this->buff.size();\n'+L1.replace('this->get_value()','v').replace('this->buff.size()','n'))]),
('same','down',[(H,L2,'for (std::size_t i = this->buff.size(); i-- > 0;) { this->buff.at(i) = this->get_value() + this->buff.at(i); }')]),
]
