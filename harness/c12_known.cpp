// Relational comparison of an optional whose payload is a std::optional with a std::optional (see known_findings.txt).
#include <tiny/optional.h>

#include <optional>
int main()
{
  tiny::optional<std::optional<int>> a(std::optional<int>(5));
  std::optional<std::optional<int>> b(std::optional<int>(6));
  std::optional<int> c(6);
  return a < b && b > a && a < c && c > a ? 0 : 1;
}
