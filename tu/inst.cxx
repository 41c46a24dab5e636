// instantiates the templates whose bodies are verified; contains no logic
#include "Format.hxx"
#include "Options.hxx"
#include "MailBox.hxx"
#include "PropertyTree.hxx"
namespace SoDaVerif {
  struct VFmt : public SoDa::Format_ext<VFmt> { VFmt(const std::string & s) : SoDa::Format_ext<VFmt>(s, this) {} };
  struct VMsg { int content; };
}
template class SoDa::Format_ext<SoDaVerif::VFmt>;
// instantiates the default arguments
void SoDaVerif_defaults(SoDaVerif::VFmt & f) { f.addI(0); f.addU(0); f.addF(0); f.addS(""); f.addC('x'); f.addB(true); }
template class SoDa::MailBox<SoDaVerif::VMsg>;
template std::shared_ptr<SoDa::MailBox<SoDaVerif::VMsg>> SoDa::makeMailBox<SoDaVerif::VMsg>(const std::string &);
template std::shared_ptr<SoDa::MailBox<SoDaVerif::VMsg>> SoDa::MailBoxBase::convert<SoDa::MailBox<SoDaVerif::VMsg>>(std::shared_ptr<SoDa::MailBoxBase>);
void SoDaVerif_defaults2(SoDa::MailBox<SoDaVerif::VMsg> & m) { m.put(nullptr); }
template SoDa::Options & SoDa::Options::add<int>(int *, const std::string &, char, int, const std::string &, const std::function<bool(int)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<int>(int *, const std::string &, char, const std::string &, const std::function<bool(int)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<unsigned>(unsigned *, const std::string &, char, unsigned, const std::string &, const std::function<bool(unsigned)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<unsigned>(unsigned *, const std::string &, char, const std::string &, const std::function<bool(unsigned)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<double>(double *, const std::string &, char, double, const std::string &, const std::function<bool(double)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<double>(double *, const std::string &, char, const std::string &, const std::function<bool(double)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<bool>(bool *, const std::string &, char, bool, const std::string &, const std::function<bool(bool)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<bool>(bool *, const std::string &, char, const std::string &, const std::function<bool(bool)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<std::string>(std::string *, const std::string &, char, std::string, const std::string &, const std::function<bool(std::string)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<std::string>(std::string *, const std::string &, char, const std::string &, const std::function<bool(std::string)> &, const std::string &);
template SoDa::Options & SoDa::Options::addV<int>(std::vector<int> *, const std::string &, char, const std::string &, const std::function<bool(int)> &, const std::string &);
template SoDa::Options & SoDa::Options::addV<std::string>(std::vector<std::string> *, const std::string &, char, const std::string &, const std::function<bool(std::string)> &, const std::string &);
template SoDa::Options & SoDa::Options::addV<double>(std::vector<double> *, const std::string &, char, const std::string &, const std::function<bool(double)> &, const std::string &);
template SoDa::Options & SoDa::Options::addV<bool>(std::vector<bool> *, const std::string &, char, const std::string &, const std::function<bool(bool)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<long>(long *, const std::string &, char, long, const std::string &, const std::function<bool(long)> &, const std::string &);
template SoDa::Options & SoDa::Options::add<long>(long *, const std::string &, char, const std::string &, const std::function<bool(long)> &, const std::string &);
template SoDa::Options & SoDa::Options::addV<unsigned>(std::vector<unsigned> *, const std::string &, char, const std::string &, const std::function<bool(unsigned)> &, const std::string &);
struct SoDaVerif_defaults3 { bool b; SoDaVerif_defaults3(SoDa::Options & o) { o.addP(&b, "b", 'b'); } };
template bool SoDa::PropertyTree::get<int>(int &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<int>(int &, bool);
template bool SoDa::PropertyTree::get<unsigned>(unsigned &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<unsigned>(unsigned &, bool);
template bool SoDa::PropertyTree::get<long>(long &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<long>(long &, bool);
template bool SoDa::PropertyTree::get<double>(double &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<double>(double &, bool);
template bool SoDa::PropertyTree::get<std::string>(std::string &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<std::string>(std::string &, bool);
template bool SoDa::PropertyTree::get<bool>(bool &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<bool>(bool &, bool);
template bool SoDa::PropertyTree::get<char>(char &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<char>(char &, bool);
template bool SoDa::PropertyTree::get<float>(float &, const std::string &, bool);
template bool SoDa::PropertyTree::PropNode::get<float>(float &, bool);
