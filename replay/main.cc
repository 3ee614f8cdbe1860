#include "h.h"
using namespace wreport;
static std::map<std::string,std::function<int(const Args&)>>& cmds(){static std::map<std::string,std::function<int(const Args&)>> m;return m;}
static std::map<std::string,std::function<int(std::mt19937&)>>& srchs(){static std::map<std::string,std::function<int(std::mt19937&)>> m;return m;}
Cmd::Cmd(const char*n,std::function<int(const Args&)> f){cmds()[n]=f;}
Search::Search(const char*n,std::function<int(std::mt19937&)> f){srchs()[n]=f;}
int bad(const char*fmt,...){va_list ap;va_start(ap,fmt);printf("MISMATCH ");vprintf(fmt,ap);va_end(ap);printf("\n");fflush(stdout);return 1;}
std::string exc_name(const std::exception&e){
    if(dynamic_cast<const error*>(&e)){switch(dynamic_cast<const error*>(&e)->code()){
        case WR_ERR_NOTFOUND:return "error_notfound";case WR_ERR_TYPE:return "error_type";case WR_ERR_ALLOC:return "error_alloc";
        case WR_ERR_HANDLES:return "error_handles";case WR_ERR_TOOLONG:return "error_toolong";case WR_ERR_SYSTEM:return "error_system";
        case WR_ERR_CONSISTENCY:return "error_consistency";case WR_ERR_PARSE:return "error_parse";case WR_ERR_WRITE:return "error_write";
        case WR_ERR_REGEX:return "error_regexp";case WR_ERR_UNIMPLEMENTED:return "error_unimplemented";case WR_ERR_DOMAIN:return "error_domain";
        default:return "error_other";}}
    return std::string("std:")+e.what();
}
std::string outcome(std::function<void()> f){try{f();return "";}catch(const std::exception&e){return exc_name(e);}}
int main(int argc,char**argv){
    if(argc<2)return 2;
    std::string c=argv[1];
    try{
        if(c=="search"){
            if(argc<4||!srchs().count(argv[2])){printf("no such search\n");return 2;}
            std::mt19937 R(U(argv[3])*7919+17);
            return srchs()[argv[2]](R);
        }
        if(!cmds().count(c)){printf("no such command\n");return 2;}
        Args a;for(int i=2;i<argc;++i)a.push_back(argv[i]);
        return cmds()[c](a);
    }catch(std::exception&e){return bad("unexpected exception %s: %s",exc_name(e).c_str(),e.what());}
}
