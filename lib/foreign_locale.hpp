// The locale a process may have chosen with setlocale: C, or a Turkish one, in
// which the lower case of "I" is not "i" (UTF-8: a character of two bytes, so
// that tolower leaves "I" alone; ISO 8859-9: one byte, and bytes above 127 are
// letters). run.py compiles them into $LOCPATH; without it nothing changes.
#pragma once
#include <locale.h>

#include "pbt.hpp"

class ForeignLocale {
 public:
  explicit ForeignLocale(pbt::Case& c) {
    if (!c.chance(1, 5)) return;
    int which = c.draw(1);
    locale_t l = get(which);
    if (!l) return;
    old_ = uselocale(l);
    c.note(which ? "locale tr_TR.ISO-8859-9" : "locale tr_TR.UTF-8");
    c.classify("Turkish locale", true);
  }
  ForeignLocale(const ForeignLocale&) = delete;
  ~ForeignLocale() {
    if (old_) uselocale(old_);
  }

 private:
  static locale_t get(int i) {
    static const locale_t all[] = {
        newlocale(LC_CTYPE_MASK, "tr_TR.UTF-8", nullptr),
        newlocale(LC_CTYPE_MASK, "tr_TR.ISO-8859-9", nullptr)};
    return all[i];
  }
  // before any case, as what it allocates belongs to none
  static inline const locale_t first_ = get(0);
  locale_t old_ = nullptr;
};
