// Stand-in for the glog backed logger: drops every message.
#include "paimon/logging.h"
namespace paimon {
namespace {
class NullLogger : public Logger {
 public:
    void LogV(PaimonLogLevel, const char*, int, const char*, const char*, ...) override {}
    bool IsLevelEnabled(PaimonLogLevel) const override { return false; }
};
}  // namespace
void Logger::RegisterLogger(LoggerCreator) {}
std::unique_ptr<Logger> Logger::GetLogger(const std::string&) { return std::make_unique<NullLogger>(); }
}  // namespace paimon
