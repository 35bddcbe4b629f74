package main

const (
	tPaths = "interprocedural path-state dataflow over SSA (must-pass-through and ordering rules)"
	tScan  = "whole-program who-may-call and constant rules over the type-checked SSA program"
	nPaths = "Every path through the analysed functions (all callees in the repository inlined, loops summarised per iteration) is shown to satisfy the rules at every sink; the behaviour of MySQL, Kubernetes and the cloud SDKs behind their interfaces is assumed, not checked. Anything the analysis cannot resolve is reported as a violation."
	nScan  = "Every call site and constant of the whole repository is enumerated from the resolved program; the rules are necessary conditions of the property and do not cover what external programs do with the values."
)

var checks = map[string]checkDef{
	"C01": {runC01, tPaths, nPaths},
	"C02": {runC02, tPaths, nPaths},
	"C03": {runC03, tPaths, nPaths},
	"C04": {runC04, tPaths, nPaths},
	"C05": {runC05, tPaths, nPaths},
	"C06": {runC06, tPaths, nPaths},
	"C07": {runC07, tPaths, nPaths},
	"C08": {runC08, tPaths, nPaths},
	"C09": {runC09, tPaths, nPaths},
	"C10": {runC10, tPaths, nPaths},
	"C11": {runC11, tPaths, nPaths},
	"C12": {runC12, tPaths, nPaths},
	"C13": {runC13, tPaths, nPaths},
	"C14": {runC14, tPaths, nPaths},
	"C15": {runC15, tPaths, nPaths},
	"C16": {runC16, tPaths, nPaths},
	"C17": {runC17, tPaths, nPaths},
	"C18": {runC18, tPaths, nPaths},
	"C19": {runC19, tPaths, nPaths},
	"C20": {runC20, tPaths, nPaths},
	"C21": {runC21, tPaths, nPaths},
	"C22": {runC22, tPaths, nPaths},
	"C23": {runC23, tPaths, nPaths},
	"C24": {runC24, tPaths, nPaths},
	"C26": {runC26, tPaths, nPaths},
	"C27": {runC27, tPaths, nPaths},
	"C28": {runC28, tPaths, nPaths},
	"C29": {runC29, tPaths, nPaths},
	"C30": {runC30, tPaths, nPaths},
	"C31": {runC31, tScan, nScan},
	"C32": {runC32, tPaths, nPaths},
	"C33": {runC33, tPaths, nPaths},
	"C34": {runC34, tPaths, nPaths},
	"C35": {runC35, tPaths, nPaths},
	"C40": {runC40, tPaths, nPaths},
	"C25": {runC25, tPaths, nPaths},
	"C39": {runC39, tPaths, nPaths},
	"C36": {runC36, tPaths, nPaths},
	"C37": {runC37, tPaths, nPaths},
	"C46": {runC46, tPaths, nPaths},
	"C44": {runC44, tPaths, nPaths},
	"C45": {runC45, tPaths, nPaths},
	"C47": {runC47, tPaths, nPaths},
	"C38": {runC38, tScan, nScan},
}
