from common import *
POL = {
 'long':'arp::long_name_t{"lname"_S}','short':'arp::short_name_t{"z"_S}','none':'arp::none_name_t{"nname"_S}','display':'arp::display_name_t{"DD"_S}','error':'arp::error_name_t{"EE"_S}','desc':'arp::description_t{"desc"_S}',
 'required':'arp::required','default':'arp::default_value{42}','alias':'arp::alias_t{arp::long_name_t{"other"_S}}','dependent':'arp::dependent_t{arp::long_name_t{"other"_S}}',
 'minmaxcount':'arp::min_max_count<1,3>','fixed':'arp::fixed_count<1>','minmaxvalue':'arp::min_max_value<1,9>()','msv':'arp::multi_stage_value<int,int>{[](std::optional<int>&,int&&){}}','noresult':'arp::no_result_value<>{}',
 'router':R,'rten':'arp::runtime_enable{true}','rtreq':'arp::runtime_enable_required<int>{true}','sfe':'arp::short_form_expander_t<>{}','tem':'arp::token_end_marker_t{"end"_S}','validator':'arp::validation::default_validator',
 'valsep':'arp::value_separator_t{"="_S}','custom':'arp::custom_parser<int>{[](std::string_view){return 1;}}','extr':'arp::exception_translator<ar::default_error_code_translations>','flatten':'arp::flatten_help','pname':'arp::program_name_t{"prog"_S}','pver':'arp::program_version_t{"v1.0"_S}',
 }
oth='ar::arg<int>("other"_S)'; othf='ar::flag("other"_S)'
T = {
 'flag': lambda p: anon('ar::flag("host"_S%s)'%p, othf),
 'flagS': lambda p: anon('ar::flag("h"_S%s)'%p, othf),
 'arg': lambda p: anon('ar::arg<int>("host"_S%s)'%p, oth),
 'count': lambda p: anon('ar::counting_flag<int>("host"_S%s)'%p, othf),
 'multi': lambda p: anon(oth,'ar::multi_arg<VI>("host"_S%s)'%p),
 'fwd': lambda p: anon(oth,'ar::forwarding_arg("host"_S%s)'%p),
 'pos': lambda p: anon(oth,'ar::positional_arg<VI>("host"_S%s)'%p),
 'one_of': lambda p: anon(oth,'ard::one_of(ar::arg<int>("aaa"_S), ar::arg<double>("bbb"_S)%s)'%p),
 'one_ofR': lambda p: anon(oth,'ard::one_of(arp::required, ar::arg<int>("aaa"_S), ar::arg<double>("bbb"_S)%s)'%p),
 'agrp': lambda p: anon(oth,'ard::alias_group(ar::arg<int>("aaa"_S), ar::arg<int>("bbb"_S)%s)'%p),
 'agrpR': lambda p: anon(oth,'ard::alias_group(arp::required, ar::arg<int>("aaa"_S), ar::arg<int>("bbb"_S)%s)'%p),
 'amode': lambda p: tree('ar::mode(%s%s)'%(oth, p), ) if 'router' in p and 0 else tree('ar::mode(%s,%s%s)'%(oth,R, p)),
 'nmode': lambda p: tree('ar::mode("mode1"_S,%s,%s%s)'%(oth,R, p)),
 'help': lambda p: tree('ar::help("help"_S%s)'%p, mode(oth)),
 'root': lambda p: tree(mode(oth)+p),
 'rflag': lambda p: tree('ar::flag("host"_S,%s%s)'%(R,p), mode(oth)),
 'rarg': lambda p: tree('ar::arg<int>("host"_S,%s%s)'%(R,p), mode(oth)),
}
# value types the hosts produce, so that a rejection is never just a type mismatch
VT = {'flag':'bool','flagS':'bool','arg':'int','count':'int','multi':'VI','fwd':'VS','pos':'VI','one_of':'std::variant<int,double>','one_ofR':'std::variant<int,double>','agrp':'int','agrpR':'int','amode':'int','nmode':'int','help':'int','root':'int','rflag':'bool','rarg':'int'}
def pol(t,p):
    if p=='default': return 'arp::default_value<%s>{%s{}}'%(VT[t],VT[t])
    if p=='rtreq': return 'arp::runtime_enable_required<%s>{true}'%VT[t]
    if p=='custom': return 'arp::custom_parser<%s>{[](std::string_view){return %s{};}}'%((VT[t],VT[t]) if t not in('multi','fwd','pos') else (('int','int') if t!='fwd' else ('std::string_view','std::string_view')))
    if p=='msv': return 'arp::multi_stage_value<%s,int>{[](std::optional<%s>&,int&&){}}'%(VT[t],VT[t])
    return POL[p]
if __name__=='__main__':
    ws=[]
    for t in T:
        ws.append(W(t+'|-','bad',T[t](''),''))
        for p in POL: ws.append(W(t+'|'+p,'bad',T[t](', '+pol(t,p)),''))
    r=Runner(); res=r.run(ws); r.close()
    json.dump({k:v for k,v in res.items()},open('/tmp/e1/mat.json','w'))
    print('%8s'%'',' '.join('%-5.5s'%p for p in ['-']+list(POL)))
    for t in T: print('%8s'%t,' '.join('%-5s'%('ok' if res[t+'|'+p][0] else '.') for p in ['-']+list(POL)))
