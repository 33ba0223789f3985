import json
PY="/opt/venv/bin/python"
LV={"C05":"fault_enumeration"}
note={
"C01":"Seeded search over simulated multi-instrument campaigns; every answer compared with an independent dense Gaussian process. Trusts the numpy oracle and float64; samples, does not enumerate.",
"C02":"The prefix scans run on a simulated multi-worker machine with crashes (and on XLA's own scan); compared with the sequential solver and the dense oracle. Trusts the patch of jax.lax.associative_scan as the only parallel seam.",
"C03":"Each campaign is analysed in many arrival orders and compared record by record, and with the dense oracle.",
"C04":"Lost records and split duplicates against the dense oracle of the undamaged information.",
"C05":"Crash points are enumerated over every shutter event of each sampled campaign; the online estimate at each is compared with the dense oracle of the delivered prefix.",
"C06":"Seeded thread scheduler and interrupts at library lines, histories, cache drops, save/restore; every answer against the dense oracle. Thread switches do not happen inside jax itself.",
"C07":"Corruptions of data, noise and parameters injected at random records; containment, causality and recovery checked.",
"C08":"Random query schedules compared across batches and with the dense oracle.",
"C09":"Every component, pair and total compared with the dense oracle.",
"C10":"A simulated analysis server packs requests into vectorised batches with corrupted lanes, padding and lost batches; every lane against the dense oracle of its own request.",
"C11":"Each campaign re-analysed under other clocks, units, labels and time direction.",
"C12":"Seeded search over simulated point streams for every kernel and composition against the dense oracle.",
"C13":"Every pair of exposures and of instants in simulated campaigns, in both argument orders, against the closed form and its quadrature; the periodic kernel also against its stated error.",
"C15":"Transition and process-noise matrices chained through simulated events, lost events and single steps against an independent solution of the declared SDE; its power spectrum at random frequencies.",
"C17":"Several clients ask for the same answers by every route of the interface; each answer against the dense oracle.",
"C16":"User-defined kernels and observation models in simulated campaigns against the dense oracle. The user kernels are the harness's own.",
"C14":"A simulated gradient-ascent client with crashes and checkpoints; every gradient against the complex-step derivative of the dense oracle.",
}
m=dict(version=1,
 setup_cmd=f"{PY} -m sim.selfcheck",
 checks=[dict(property=p,quick_cmd=f"{PY} -m sim.harness {p}",thorough_cmd=f"{PY} -m sim.harness {p} --tier thorough",
   technique="deterministic simulation with fault injection",level=LV.get(p,"exploration"),level_note=n) for p,n in sorted(note.items())],
 not_applicable=[
  dict(property="N04",reason="Linear (or logarithmic) cost is a performance property; the simulator decides nothing about performance."),
 ],
 notes="No hooks in /repo are needed: the seams are the public API, the jax.lax.associative_scan function and sys.settrace. All commits in /repo are repairs (fix:), listed in known-findings.json.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
