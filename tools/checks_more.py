check("S11", "exploration", "seeded request histories with call faults, pristine-process reference",
      "Seeded histories of neighbouring, repeated, foreign and failing requests in one process; relative tolerance 1e-6.")
check("S12", "exploration", "seeded series of comparisons with call faults, from-data reference in a pristine process",
      "Seeded series of 1-4 comparisons sharing a fiducial object; relative tolerance 1e-6; SCF_Distance may refuse a fiducial whose lags an earlier comparison changed.")
check("S13", "fault_enumeration", "seeded storage faults and process death at chosen bytes, operations and lines of saving and loading moment maps",
      "Seeded histories of 1-3 saves of one cube's maps, one fault per history, damage to 0-2 files; loading in a pristine process compared with the maps in memory at the time of the save.")
check("S14", "exploration", "seeded execution choices (FFT backend, jobs order, memory contents and placement, interpreter) with failing FFT calls and jobs, plain run as reference",
      "Seeded; relative tolerance 1e-6; a difference is only reported for values that rounding-sized noise in the input (8 samples) does not change.")
check("S15", "exploration", "seeded hand-over points between real processes with worker death and interrupts, one-process run as reference",
      "Seeded; 1-3 hand-overs; Moments excluded (spectral-cube cannot pickle a used cube); relative tolerance 1e-6.")
check("S16", "exploration", "seeded display options, plots and failing display calls around each request, plain run in a pristine process as reference",
      "Seeded; one failing display call per run; Agg canvas instead of a screen; state left by a failed progress bar in mid-computation is only judged by the repeated request.")
