// Which scenarios decide which property.
#include "model.h"
const std::vector<Plan> &plans() {
	static const std::vector<Plan> p = {
		{"P01", {{"traffic", 4}, {"order", 1}, {"atomic", 1}, {"outage", 2}, {"dump", 1}, {"aiorace", 2}}, 1800},
		{"P02", {{"atomic", 3}, {"traffic", 2}, {"outage", 1}, {"dump", 1}, {"aiorace", 2}}, 1800},
		{"P12", {{"dump", 4}, {"atomic", 1}, {"aiorace", 1}, {"privs", 1}}, 2000},
		{"P13", {{"overflow", 1}}, 1000},
		{"P14", {{"outage", 1}}, 1700},
		{"P15", {{"order", 2}, {"traffic", 1}, {"atomic", 1}, {"aiorace", 1}}, 1800},
		{"P03", {{"authz", 4}, {"authn", 1}, {"dump", 1}}, 2400},
		{"P04", {{"authn", 3}, {"authz", 1}}, 2400},
		{"P07", {{"proto", 4}, {"lines", 1}, {"sizes", 1}, {"pipeline", 2}, {"flood", 1}}, 1700},
		{"P08", {{"idle", 3}, {"crowd", 2}}, 1100},
		{"P20", {{"sizes", 1}}, 2000},
		{"P21", {{"lines", 1}, {"endless", 1}}, 2000},
		{"P11", {{"leak", 3}, {"flood", 1}, {"dump", 1}}, 1300},
		{"P05", {{"client_bad", 2}, {"client_ok", 1}, {"client_long", 1}, {"e2e", 3}}, 2600},
		{"P06", {{"client_ok", 3}, {"client_long", 2}, {"e2e", 1}, {"client_bad", 1}}, 2600},
		{"P09", {{"client_bad", 4}, {"e2e", 1}}, 4000},
		{"P22", {{"client_addrs", 1}}, 5000},
		{"P10", {{"attack", 3}, {"crowd", 1}, {"outage", 1}, {"flood", 1}, {"traffic", 1}, {"dump", 1}}, 1400},
		{"P16", {{"pidfile", 1}}, 6000},
		{"P24", {{"privs", 1}}, 3000},
		{"P25", {{"client_bad", 2}, {"libs_bad", 1}, {"libs_real", 1}, {"e2e", 1}, {"authn", 1}, {"attack", 1}, {"proto", 1}}, 2000},
		{"P26", {{"authz", 3}, {"authn", 2}, {"proto", 1}, {"traffic", 1}, {"attack", 1}, {"outage", 1}}, 2000},
		{"P27", {{"startup", 1}}, 9000},
		{"P28", {{"libs_life", 1}}, 3000},
		{"P29", {{"nomem", 3}, {"e2e_nomem", 2}}, 3000},
		{"P17", {{"signals", 1}}, 2700},
		{"P18", {{"watchdog", 1}}, 1700},
		{"P19", {{"libs_ok", 2}, {"libs_bad", 2}, {"libs_real", 2}}, 1700},
		{"P23", {{"libs_bad", 3}, {"libs_ok", 1}, {"libs_real", 1}}, 1900},
	};
	return p;
}
