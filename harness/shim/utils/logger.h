// Stand-in for the (absent) submodules/utils logger: same macros, message text
// is discarded, warnings/errors are reported to the harness.
#ifndef VERIF_UTILS_LOGGER_H
#define VERIF_UTILS_LOGGER_H
#include <cstring>
#include <sstream>
#include <string>
extern "C" void verif_log(int level, const char* text) __attribute__((weak));
namespace utils {
class VerifLog {
	int m_level;
	std::ostringstream m_s;
public:
	explicit VerifLog(int level, int = 0) : m_level(level) {}
	VerifLog(const VerifLog&) = delete;
	~VerifLog() { if (verif_log) verif_log(m_level, m_s.str().c_str()); }
	template<typename T> VerifLog& operator<<(const T& t) { m_s << t << ' '; return *this; }
	VerifLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
class VerifNoLog {
public:
	explicit VerifNoLog(int = 0) {}
	template<typename T> VerifNoLog& operator<<(const T&) { return *this; }
	VerifNoLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
}
inline utils::VerifNoLog logDebug(int = 0) { return utils::VerifNoLog(); }
inline utils::VerifNoLog logInfo(int = 0) { return utils::VerifNoLog(); }
#define logWarning(...) utils::VerifLog(1)
#define logError(...) utils::VerifLog(2)
#define NDBG_UNUSED(x) (void)(x)
#endif
