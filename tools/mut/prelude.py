# The C++ code that every test shares.
P='internal/gen/cpp/embed/prelude/'; C=P+'rtcg.cpp'; H=P+'rtcg.h'
def bug(p,*e): return [(x,'bug',list(e)) for x in p.split()]
def ok(*e): return [('C17','ok',list(e)),('C16','ok',list(e)),('C30','ok',list(e))]
CASES=[]
for c in [
 bug('C17',(C,'return "passed"','return "failed"'),(C,'case rtcg::Outcome::FAIL:\n    return "failed"','case rtcg::Outcome::FAIL:\n    return "passed"')),
 bug('C17',(C,'  case rtcg::Outcome::PASS:\n    return "passed";\n','  case rtcg::Outcome::PASS:\n')),
 bug('C17',(C,'  case Status::WAIT_OUT:\n    return true','    return true')),
 bug('C17',(C,'  case Status::WAIT_OUT:\n    return true','  case Status::WAIT_OUT:\n  case Status::OFF_SCRIPT:\n    return true')),
 bug('C17',(C,'  case Status::WAIT_IN:\n','')),
 bug('C17',(C,'  case rtcg::Status::FAIL:\n    return 1','  case rtcg::Status::FAIL:\n    return 0')),
 bug('C17',(C,'  case rtcg::Status::BUG:\n    return 2','  case rtcg::Status::BUG:\n    return 1')),
 bug('C17',(C,'  case rtcg::Status::FAIL:\n    return 1;\n','  case rtcg::Status::FAIL:\n')),
 bug('C17',(C,'    return 2;\n  default:\n    return 0;','    return 2;\n  case rtcg::Status::TIMEOUT:\n    return 3;\n  default:\n    return 0;')),
 bug('C17 C16',(C,'  return status_;','  return Status::WAIT_START;')),
 ok((H,'Status status_ = Status::WAIT_START;','Status status_ = Status::WAIT_IN;')),
 bug('C17',(H,'Status status_ = Status::WAIT_START;','Status status_ = Status::OFF_SCRIPT;')),
 bug('C17',(C,'stm << rtcg::outstr(o)','stm << rtcg::outstr(rtcg::Outcome::PASS)')),
 bug('C17',(C,'return "an unwanted behaviour occurred";\n  case rtcg::Status::BUG:\n    return "an internal error occurred"','return "an internal error occurred";\n  case rtcg::Status::BUG:\n    return "an unwanted behaviour occurred"')),
 bug('C30',(C,'#include <ostream>\n','')),
 bug('C30',(H,'#ifndef RTCG_H_DEFINED','#ifdef RTCG_H_DEFINED')),
 bug('C30',(H,'  protected:\n','  private:\n')),
 bug('C30',(H,'    int exitCode(Status s);','    int exitCode(Status s, bool quiet);')),
 bug('C30',(H,'    bool isRunning(Status s);\n','')),
 bug('C30',(C,'bool rtcg::status::isRunning(rtcg::Status s)','bool isRunning(rtcg::Status s)'),(C,'  case Status::WAIT_START:\n  case Status::WAIT_IN:\n  case Status::WAIT_OUT:','  case rtcg::Status::WAIT_START:\n  case rtcg::Status::WAIT_IN:\n  case rtcg::Status::WAIT_OUT:')),
 bug('C30',(H,'    BUG,        // Something','    BROKEN,     // Something'),(C,'  case rtcg::Status::BUG:\n    return "an','  case rtcg::Status::BROKEN:\n    return "an'),(C,'  case rtcg::Status::BUG:\n    return 2','  case rtcg::Status::BROKEN:\n    return 2')),
 bug('C30',(H,'    UNSET, // Outcome not set.','    NONE, // Outcome not set.'),(C,'Outcome::UNSET','Outcome::NONE')),
 ok((C,'''  switch (s)
  {
  case Status::WAIT_START:
  case Status::WAIT_IN:
  case Status::WAIT_OUT:
    return true;
  default:
    return false;
  }
''','''  return s == Status::WAIT_START || s == Status::WAIT_IN || s == Status::WAIT_OUT;
''')),
 ok((C,'''  switch (s)
  {
  case rtcg::Status::FAIL:
    return 1;
  case rtcg::Status::BUG:
    return 2;
  default:
    return 0;
  }
''','''  if (s == rtcg::Status::FAIL)
  {
    return 1;
  }
  return s == rtcg::Status::BUG ? 2 : 0;
''')),
 ok((C,'''  switch (o)
  {
  case rtcg::Outcome::UNSET:
    return "unset";
  case rtcg::Outcome::INC:
    return "inconclusive";
  case rtcg::Outcome::PASS:
    return "passed";
  case rtcg::Outcome::FAIL:
    return "failed";
  }
  return "???";
''','''  if (o == rtcg::Outcome::UNSET) return "unset";
  if (o == rtcg::Outcome::INC) return "inconclusive";
  if (o == rtcg::Outcome::PASS) return "passed";
  if (o == rtcg::Outcome::FAIL) return "failed";
  return "???";
''')),
 ok((C,'''  switch (o)
  {
  case rtcg::Outcome::UNSET:
    return "unset";
  case rtcg::Outcome::INC:
    return "inconclusive";
  case rtcg::Outcome::PASS:
    return "passed";
  case rtcg::Outcome::FAIL:
    return "failed";
  }
  return "???";
''','''  static const char* const names[] = {"unset", "inconclusive", "passed", "failed"};

  const int index = static_cast<int>(o);
  return 0 <= index && index < 4 ? names[index] : "???";
''')),
 ok((C,'''  switch (s) {
  case rtcg::Status::WAIT_START:
    return "waiting to start";''','''  const char* text = "unknown (this should not occur)";
  switch (s) {
  case rtcg::Status::WAIT_START:
    text = "waiting to start";
    break;'''),(C,'''  case rtcg::Status::BUG:
    return "an internal error occurred";
  default:
    return "unknown (this should not occur)";
  }
''','''  case rtcg::Status::BUG:
    return "an internal error occurred";
  default:
    break;
  }
  return text;
''')),
 ok((C,'''std::ostream& operator<<(std::ostream& stm, rtcg::Status o)
{
  return stm << rtcg::status::explain(o);
}
''','''std::ostream& operator<<(std::ostream& stm, rtcg::Status o)
{
  const char* text = rtcg::status::explain(o);
  stm << text;
  return stm;
}
''')),
 ok((H,'    Status getStatus(); // Gets','    Status getStatus() { return status_; } // Gets'),(C,'''rtcg::Status rtcg::TestCase::getStatus()
{
  return status_;
}
''','')),
 ok((H,'    Status getStatus(); // Gets','    Status getStatus() const; // Gets'),(C,'rtcg::TestCase::getStatus()','rtcg::TestCase::getStatus() const')),
 ok((C,'''//
// Outcome
//

const char* rtcg::outstr(rtcg::Outcome o)
''','''namespace rtcg
{

//
// Outcome
//

const char* outstr(Outcome o)
'''),(C,'''  return "???";
}
''','''  return "???";
}

}
''')),
 ok((C,'''//
// TestCase
//

rtcg::Status rtcg::TestCase::getStatus()
{
  return status_;
}
''',''),(C,'''//
// Status
//
''','''//
// TestCase
//

rtcg::Status rtcg::TestCase::getStatus()
{
  return this->status_;
}

//
// Status
//
''')),
 ok((C,'''bool rtcg::status::isRunning(rtcg::Status s)
{
  switch (s)
''','''bool rtcg::status::isRunning(const rtcg::Status s)
{
  switch (s)
''')),
 ok((H,'namespace rtcg\n{\n  //\n  // Outcome','#include <iosfwd>\n\nnamespace rtcg\n{\n  //\n  // Outcome')),
]: CASES+=c
