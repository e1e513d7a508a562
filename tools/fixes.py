"""Fill the "fixed" list of known_findings.json from the fix commits in /repo (maintenance tool, no check runs it)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [(r"unsynchronised PSK", "C05"), (r"phase_partition_16qam", "C14"), (r"pilot_based_cpe", "C14"), (r"PMD", "C17"), (r"corr_foe", "C16"),   # first match wins: pattern in the subject -> property
    (r"linspacestep", "C22"), (r"lost single precision|moving_average lost precision", "C23"), (r"rrcos_resample ignored", "C18"), (r"changed the (array|signal) it was given", "C08"), (r"shift_signal", "C14"),
    (r"comp_rf_delay", "C25"), (r"CDcomp|add_dispersion", "C17"), (r"pilot equaliser|pilot_equaliser|frame_sync|sync2frame", "C16"), (r"sgncma|initial taps|dual_mode_equalisation|data-aided", "C09"),
    (r"step size|partition codes", "C09"), (r"compiled kernels leave|read outside|without a finite distance", "C12"), (r"mode without power", "C04"), (r"data race", "C10"), (r"apply_filter|equaliser filter|equalisers rejected", "C11"), (r"decisions far away|strided signals|long phase", "C03"),
    (r"from_symbol_array counts|from_symbol_array and honour|from_bit_array", "C01"), (r"generate_ps_symbols", "C01"), (r"SymbolOnlySignal honours", "C01"), (r"cal_ser|cal_ber", "C04"),
    (r"find_sequence|find_offset|sync_rx2tx|offset search|adjusting data", "C05"), (r"recreate_from|oversampling factor lost|fractional oversampling", "C06"), (r"SignalWithPilots|pilot signals|ph_pilots|get_data|find_pilot_idx|pilot sequences", "C15"),
    (r"phase of a carrier offset", "C23"),
    (r"TDHQAM|time-domain hybrid", "C28"), (r"quantize|DAC|clipper", "C21"), (r"filter|rcos|pulse", "C18"), (r"rescale_signal|dump_edges|rolling|segment_axis|iqtosingle|normalise_and_center", "C22"),
    (r"comp_IQ|orthonormalize", "C25"), (r"simulate_transmission", "C29"), (r"prbs|PRBS", "C19"), (r"cal_lut", "C24"), (r"gmi|GMI|cal_mi|mutual|log-lik|snr|SNR|sim_mi", "C20"), (r"ber_vs|theory|hybrid_qam", "C26"),
    (r"viterbi|partition_16qam|phase_partition|freq_offset|frequency offset", "C14"), (r"pilot_cpe|pilot_based_cpe", "C16")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "58e15a2.."], capture_output=True, text=True, check=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = next((p for r, p in RULES if re.search(r, s)), None)
    if p is None: print("unassigned", l); p = "C28"
    fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
f = os.path.join(V, "known_findings.json"); d = json.load(open(f)); d["fixed"] = fixed
open(f, "w").write(json.dumps(d, indent=1, ensure_ascii=False) + "\n"); print(len(fixed), "fixes")
