#include "bezman/src/utils/logger.hpp"
using bezman::utils::Logger;
using Lv = Logger::OutputLevel;
void LogLevel(unsigned l) { Logger::SetOutputLevel(l); }
void LogList0() { Logger::SetOutputLevel({}); }
void LogList1(Lv a) { Logger::SetOutputLevel({a}); }
void LogList2(Lv a, Lv b) { Logger::SetOutputLevel({a, b}); }
void LogList3(Lv a, Lv b, Lv c) { Logger::SetOutputLevel({a, b, c}); }
void LogWarning(const std::string& s) { Logger::Warning(s); }
void LogError(const std::string& s) { Logger::Error(s); }
void LogUserInfo(const std::string& s) { Logger::UserInfo(s); }
void LogLogging(const std::string& s) { Logger::Logging(s); }
void LogExtended(const std::string& s) { Logger::ExtendedInformation(s); }
void LogFatal(const std::string& s) { Logger::TerminatingError(s); }
void LogFatalLogic(const std::string& s) {
  Logger::TerminatingError<std::logic_error>(s);
}
