// Stand-in for the (absent) submodules/utils string helpers, same behaviour.
#ifndef VERIF_UTILS_STRINGUTILS_H
#define VERIF_UTILS_STRINGUTILS_H
#include <algorithm>
#include <cctype>
#include <sstream>
#include <string>
namespace utils {
class StringUtils {
public:
	static bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
	static bool endsWith(const std::string& s, const std::string& p)
	{ return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
	static std::string& toUpper(std::string& s)
	{ for (char& c : s) c = static_cast<char>(::toupper(static_cast<unsigned char>(c))); return s; }
	static std::string& toLower(std::string& s)
	{ for (char& c : s) c = static_cast<char>(::tolower(static_cast<unsigned char>(c))); return s; }
	template<typename T> static std::string toString(T v) { std::ostringstream o; o << v; return o.str(); }
	template<typename T> static T parse(const std::string& s)
	{ T r = T(); std::istringstream i(s); i >> r; return r; }
	template<typename T> static T parse(const std::string& s, bool) { return parse<T>(s); }
};
template<> inline std::string StringUtils::parse(const std::string& s) { return s; }
template<> inline const char* StringUtils::parse(const std::string& s) { return s.c_str(); }
}
#endif
