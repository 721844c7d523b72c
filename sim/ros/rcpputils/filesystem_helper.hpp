#ifndef SIM_RCPPUTILS_FS_HPP_
#define SIM_RCPPUTILS_FS_HPP_
#include <filesystem>
#include <string>
namespace rcpputils
{
namespace fs
{
class path : public std::filesystem::path
{
public:
  using std::filesystem::path::path;
  bool exists() const {std::error_code e; return std::filesystem::exists(*this, e);}
};
inline bool exists(const path & p) {return p.exists();}
inline bool exists(const std::string & p) {std::error_code e; return std::filesystem::exists(p, e);}
inline bool is_directory(const std::string & p) {std::error_code e; return std::filesystem::is_directory(p, e);}
inline bool create_directories(const std::string & p) {std::error_code e; std::filesystem::create_directories(p, e); return !e;}
}  // namespace fs
}  // namespace rcpputils
#endif
