// Concrete replay harness: runs the real library code on one input and compares with an
// independently written oracle.  exit 0 = agrees, 1 = violation reproduced, 2 = not applicable.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <limits>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <random>
#include <unordered_map>
#include <fstream>
#define private public
#define protected public
#include <wreport/error.h>
#include <wreport/varinfo.h>
#include <wreport/var.h>
#include <wreport/options.h>
#include <wreport/buffers/bufr.h>
#include <wreport/bufr/input.h>
typedef std::vector<std::string> Args;
typedef std::vector<int> Bits;
struct Cmd { Cmd(const char* name,std::function<int(const Args&)> f); };
struct Search { Search(const char* name,std::function<int(std::mt19937&)> f); };
#define CMD(n) static int cmd_##n(const Args&a); static Cmd reg_##n(#n,cmd_##n); static int cmd_##n(const Args&a)
#define SEARCH(n) static int srch_##n(std::mt19937&R); static Search sreg_##n(#n,srch_##n); static int srch_##n(std::mt19937&R)
inline uint64_t U(const std::string&s){return strtoull(s.c_str(),0,0);}
inline std::string unhex(const std::string&s){std::string r; if(s=="-")return r; for(size_t i=0;i+1<s.size();i+=2)r+=(char)strtoul(s.substr(i,2).c_str(),0,16);return r;}
inline std::string hex(const std::string&s){std::string r;char b[4];for(unsigned char c:s){snprintf(b,4,"%02x",c);r+=b;}return r.empty()?"-":r;}
inline uint32_t rnd(std::mt19937&R,uint32_t lo,uint32_t hi){return lo+(uint32_t)(R()%(uint64_t(hi)-lo+1));}
int bad(const char*fmt,...);
std::string exc_name(const std::exception&e);
// runs f; returns "" or the kind of exception thrown
std::string outcome(std::function<void()> f);
