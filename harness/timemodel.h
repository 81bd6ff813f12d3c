// time functions in UTC
#pragma once
#include <time.h>
#include <string.h>
static struct tm tmNow;
extern "C" {
time_t __wrap_time(time_t* t) { if (t) *t = 1000; return 1000; }
struct tm* __wrap_localtime(const time_t*) { memset(&tmNow, 0, sizeof tmNow); tmNow.tm_year = 70; tmNow.tm_mday = 1; return &tmNow; }
time_t __wrap_mktime(struct tm* t) {
    int64_t y = t->tm_year + 1900, m = t->tm_mon + 1, d = t->tm_mday; y -= m <= 2; int64_t era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return (era * 146097 + doe - 719468) * 86400 + t->tm_hour * 3600 + t->tm_min * 60 + t->tm_sec;
}
}
