#ifndef SIM_TF2_EXCEPTIONS_H_
#define SIM_TF2_EXCEPTIONS_H_
#include <stdexcept>
#include <string>
namespace tf2
{
class TransformException : public std::runtime_error
{
public:
  explicit TransformException(const std::string & s) : std::runtime_error(s) {}
};
class ConnectivityException : public TransformException
{
public:
  explicit ConnectivityException(const std::string & s) : TransformException(s) {}
};
class LookupException : public TransformException
{
public:
  explicit LookupException(const std::string & s) : TransformException(s) {}
};
class ExtrapolationException : public TransformException
{
public:
  explicit ExtrapolationException(const std::string & s) : TransformException(s) {}
};
class InvalidArgumentException : public TransformException
{
public:
  explicit InvalidArgumentException(const std::string & s) : TransformException(s) {}
};
class TimeoutException : public TransformException
{
public:
  explicit TimeoutException(const std::string & s) : TransformException(s) {}
};
}  // namespace tf2
#endif
