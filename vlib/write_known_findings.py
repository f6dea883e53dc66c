import subprocess
M = {"middle key rates apply":"C08","yield curve calibration scales":"C09","par swap rates ignore":"C15","observe holidays":"C01","30/360":"C04","datetimes accrue":"C04","generate_dates_by":"C03","iterate cashflow":"C05","right-end":"C07","key rate collections stay":"C08",
"key rate derivatives":"C10","portfolios holding":"C17","RiskLadder":"C17","accrued interest":"C12","bond durations":"C13","loan schedules":"C16","yield to maturity curves":"C09",
"sample paths interpolate":"C19","every simulated":"C20","geometric":"C20","integrals and":"C21","Vasicek model":"C22","multivariate Vasicek":"C22","the factorized":None,"swap legs":"C14","optimal portfolios":"C18","let DoublyMeanRevertingVasicek":"C22","diffusion processes driven":"C20","forward rate covariances":"C22"}
out=["# known: property=<id> key=<violation key> -- <what fails>     (recorded, not repaired; reported as KNOWN-FINDING)",
"# fixed: property=<id> <commit> <what failed>                   (repaired in /repo; suppresses nothing)"]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines():
    h,_,m=l.partition(" ")
    if not m.startswith("fix: "): continue
    m=m[5:]
    k=[v for a,v in M.items() if m.startswith(a)]
    assert len(k)==1,(m,k)
    out.append(f"fixed: property={k[0] or 'none'} {h} {m}")
open('/verif/known_findings.txt','w').write("\n".join(out)+"\n")
