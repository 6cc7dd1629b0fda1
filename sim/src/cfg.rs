//! Draws configurations (all documented options, sane values) from labelled choices.
use crate::gen::Gen;
use stratum_dsp::features::key::templates::TemplateSet;
use stratum_dsp::preprocessing::normalization::NormalizationMethod;
use stratum_dsp::AnalysisConfig;

pub fn draw(g: &Gen) -> AnalysisConfig {
    let mut c = AnalysisConfig::default();
    // 0: defaults, 1: a few options changed, 2: many
    let level = g.pick("cfg", &[0usize, 1, 1, 2]);
    let (fs, hs) = g.pick("frame", &[(2048usize, 512usize), (1024, 256), (512, 128), (1024, 512), (2048, 1024), (2048, 512), (512, 64), (1024, 128)]);
    c.frame_size = fs;
    c.hop_size = hs;
    let (kf, kh) = g.pick("kframe", &[(8192usize, 512usize), (4096, 512), (2048, 256), (2048, 512), (1024, 256), (1024, 128), (512, 64)]);
    c.key_stft_frame_size = kf;
    c.key_stft_hop_size = kh;
    c.normalization = g.pick("nmode", &[NormalizationMethod::Peak, NormalizationMethod::Peak, NormalizationMethod::Loudness, NormalizationMethod::Loudness, NormalizationMethod::RMS]);
    // keep segment voting reachable on short tracks
    if g.chance("kseg", 1, 2) {
        c.key_segment_len_frames = g.pick("kseglen", &[120usize, 24, 128, 16, 48, 64]);
        c.key_segment_hop_frames = g.pick("kseghop", &[40usize, 12, 8, 24, 5, 120]);
    }
    // the key modes hide one another: often force exactly one of them, with sizes a short track reaches
    match g.pick("kmode", &[0usize, 0, 0, 0, 1, 2, 3, 4, 5, 6]) {
        0 => {}
        m => {
            c.enable_key_multi_scale = m == 1;
            c.enable_key_ensemble = m == 2;
            c.enable_key_median = m == 3;
            c.enable_key_segment_voting = m == 4;
            c.enable_key_mode_heuristic = m >= 5;
            c.enable_key_hpcp = m == 6;
            c.enable_key_beat_synchronous = m == 6 && g.chance("kmode.bs", 1, 2);
            if m == 1 {
                c.key_multi_scale_lengths = vec![12, 30, 60];
                c.key_multi_scale_hop = 6;
            }
            if m == 3 {
                c.key_median_segment_length_frames = 24;
                c.key_median_segment_hop_frames = 8;
            }
            if m == 4 {
                c.key_segment_len_frames = 120;
                c.key_segment_hop_frames = 30;
            }
        }
    }
    if level == 0 {
        return c;
    }
    let den = if level == 1 { 7 } else { 2 };
    macro_rules! flip { ($($f:ident),* $(,)?) => { $( if g.chance(concat!("?", stringify!($f)), 1, den) { c.$f = !c.$f; } )* } }
    macro_rules! set { ($($f:ident = $v:expr);* $(;)?) => { $( if g.chance(concat!("?", stringify!($f)), 1, den) { let l: &str = stringify!($f); c.$f = $v(l); } )* } }
    flip!(
        enable_normalization, enable_silence_trimming, enable_onset_consensus, enable_hpss_onsets, force_legacy_bpm, enable_bpm_fusion,
        enable_legacy_bpm_guardrails, enable_tempogram_multi_resolution, tempogram_multi_res_use_human_prior, enable_tempogram_percussive_fallback,
        enable_tempogram_band_fusion, tempogram_band_seed_only, enable_tempogram_mel_novelty, emit_tempogram_candidates, soft_chroma_mapping,
        enable_key_spectrogram_time_smoothing, enable_key_frame_weighting, enable_key_harmonic_mask, enable_key_hpss_harmonic,
        enable_key_stft_override, enable_key_log_frequency, enable_key_beat_synchronous, enable_key_multi_scale, enable_key_ensemble,
        enable_key_median, enable_key_tuning_compensation, enable_key_edge_trim, enable_key_segment_voting, enable_key_mode_heuristic,
        enable_key_hpcp, enable_key_hpcp_whitening, enable_key_hpcp_bass_blend, enable_key_minor_harmonic_bonus,
    );
    set! {
        min_amplitude_db = |l| g.pick(l, &[-40.0f32, -60.0, -20.0, -80.0]);
        normalization = |l| g.pick(l, &[NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness, NormalizationMethod::Loudness]);
        onset_threshold_percentile = |l| g.pick(l, &[0.8f32, 0.5, 0.95, 0.0, 1.0]);
        onset_consensus_tolerance_ms = |l| g.pick(l, &[50u32, 10, 100, 1, 30]);
        onset_consensus_weights = |l| g.pick(l, &[[0.25f32; 4], [0.4, 0.3, 0.2, 0.1], [1.0, 0.0, 0.0, 0.0], [0.1, 0.2, 0.3, 0.4]]);
        hpss_margin = |l| g.pick(l, &[10usize, 5, 3, 1, 20]);
        tempogram_multi_res_top_k = |l| g.pick(l, &[25usize, 5, 10, 1]);
        tempogram_multi_res_w512 = |l| g.f(l, 0.1, 1.0);
        tempogram_multi_res_w256 = |l| g.f(l, 0.1, 1.0);
        tempogram_multi_res_w1024 = |l| g.f(l, 0.1, 1.0);
        tempogram_multi_res_structural_discount = |l| g.f(l, 0.5, 1.0);
        tempogram_multi_res_double_time_512_factor = |l| g.f(l, 0.5, 1.0);
        tempogram_multi_res_margin_threshold = |l| g.f(l, 0.0, 0.3);
        tempogram_band_low_max_hz = |l| g.pick(l, &[200.0f32, 120.0, 300.0]);
        tempogram_band_mid_max_hz = |l| g.pick(l, &[2000.0f32, 1500.0, 3000.0]);
        tempogram_band_high_max_hz = |l| g.pick(l, &[8000.0f32, 6000.0, 0.0]);
        tempogram_band_w_full = |l| g.f(l, 0.0, 1.0);
        tempogram_band_w_low = |l| g.f(l, 0.0, 1.0);
        tempogram_band_w_mid = |l| g.f(l, 0.0, 1.0);
        tempogram_band_w_high = |l| g.f(l, 0.0, 1.0);
        tempogram_band_support_threshold = |l| g.f(l, 0.0, 0.6);
        tempogram_band_consensus_bonus = |l| g.f(l, 0.0, 0.3);
        tempogram_novelty_w_spectral = |l| g.f(l, 0.0, 1.0);
        tempogram_novelty_w_energy = |l| g.f(l, 0.0, 1.0);
        tempogram_novelty_w_hfc = |l| g.f(l, 0.0, 1.0);
        tempogram_novelty_local_mean_window = |l| g.pick(l, &[16usize, 0, 8, 32]);
        tempogram_novelty_smooth_window = |l| g.pick(l, &[5usize, 0, 3, 9]);
        tempogram_mel_n_mels = |l| g.pick(l, &[40usize, 24, 64, 13]);
        tempogram_mel_fmin_hz = |l| g.pick(l, &[30.0f32, 20.0, 60.0]);
        tempogram_mel_fmax_hz = |l| g.pick(l, &[8000.0f32, 6000.0, 16000.0]);
        tempogram_mel_max_filter_bins = |l| g.pick(l, &[2usize, 0, 1, 4]);
        tempogram_mel_weight = |l| g.f(l, 0.0, 0.5);
        tempogram_superflux_max_filter_bins = |l| g.pick(l, &[4usize, 0, 2, 8]);
        tempogram_candidates_top_n = |l| g.pick(l, &[10usize, 1, 3, 50, 0]);
        legacy_bpm_preferred_min = |l| g.pick(l, &[72.0f32, 75.0, 80.0]);
        legacy_bpm_preferred_max = |l| g.pick(l, &[168.0f32, 150.0, 180.0]);
        legacy_bpm_soft_min = |l| g.pick(l, &[60.0f32, 50.0]);
        legacy_bpm_soft_max = |l| g.pick(l, &[210.0f32, 200.0]);
        legacy_bpm_conf_mul_preferred = |l| g.pick(l, &[1.3f32, 1.0, 1.5]);
        legacy_bpm_conf_mul_soft = |l| g.pick(l, &[0.7f32, 0.5]);
        legacy_bpm_conf_mul_extreme = |l| g.pick(l, &[0.01f32, 0.1]);
        min_bpm = |l| g.pick(l, &[40.0f32, 60.0, 80.0, 50.0]);
        max_bpm = |l| g.pick(l, &[240.0f32, 180.0, 200.0, 160.0]);
        bpm_resolution = |l| g.pick(l, &[1.0f32, 0.5, 2.0]);
        center_frequency = |l| g.pick(l, &[440.0f32, 432.0]);
        soft_mapping_sigma = |l| g.pick(l, &[0.5f32, 0.3, 1.0]);
        chroma_sharpening_power = |l| g.pick(l, &[1.0f32, 1.5, 2.0]);
        key_spectrogram_smooth_margin = |l| g.pick(l, &[12usize, 4, 0, 24]);
        key_min_tonalness = |l| g.pick(l, &[0.0f32, 0.1, 0.4]);
        key_tonalness_power = |l| g.pick(l, &[2.0f32, 1.0, 0.0]);
        key_energy_power = |l| g.pick(l, &[0.5f32, 0.0, 1.0]);
        key_harmonic_mask_power = |l| g.pick(l, &[2.0f32, 1.0]);
        key_hpss_frame_step = |l| g.pick(l, &[4usize, 1, 2]);
        key_hpss_time_margin = |l| g.pick(l, &[8usize, 2, 4]);
        key_hpss_freq_margin = |l| g.pick(l, &[8usize, 2, 4]);
        key_hpss_mask_power = |l| g.pick(l, &[2.0f32, 1.0]);
        key_template_set = |l| g.pick(l, &[TemplateSet::KrumhanslKessler, TemplateSet::Temperley]);
        key_ensemble_kk_weight = |l| g.pick(l, &[0.5f32, 0.7, 1.0]);
        key_ensemble_temperley_weight = |l| g.pick(l, &[0.5f32, 0.3, 0.0]);
        key_median_segment_length_frames = |l| g.pick(l, &[16usize, 32, 480]);
        key_median_segment_hop_frames = |l| g.pick(l, &[8usize, 16, 120]);
        key_median_min_segments = |l| g.pick(l, &[3usize, 1, 2]);
        key_multi_scale_lengths = |l| g.pick(l, &[vec![10usize, 20, 40], vec![120, 360, 720], vec![16], vec![8, 64]]);
        key_multi_scale_hop = |l| g.pick(l, &[10usize, 60, 4]);
        key_multi_scale_min_clarity = |l| g.pick(l, &[0.2f32, 0.0, 0.5]);
        key_multi_scale_weights = |l| g.pick(l, &[vec![], vec![0.2f32, 0.5, 0.3]]);
        key_tuning_max_abs_semitones = |l| g.pick(l, &[0.08f32, 0.25]);
        key_tuning_frame_step = |l| g.pick(l, &[20usize, 1, 5]);
        key_tuning_peak_rel_threshold = |l| g.pick(l, &[0.35f32, 0.1]);
        key_edge_trim_fraction = |l| g.pick(l, &[0.15f32, 0.4, 0.0]);
        key_segment_min_clarity = |l| g.pick(l, &[0.2f32, 0.0, 0.6]);
        key_mode_third_ratio_margin = |l| g.pick(l, &[0.0f32, 0.05, 0.2]);
        key_mode_flip_min_score_ratio = |l| g.pick(l, &[0.6f32, 0.92, 0.0]);
        key_hpcp_peaks_per_frame = |l| g.pick(l, &[24usize, 8, 1, 60]);
        key_hpcp_num_harmonics = |l| g.pick(l, &[4usize, 1, 8]);
        key_hpcp_harmonic_decay = |l| g.pick(l, &[0.6f32, 0.9]);
        key_hpcp_mag_power = |l| g.pick(l, &[0.5f32, 1.0]);
        key_hpcp_whitening_smooth_bins = |l| g.pick(l, &[31usize, 7, 3]);
        key_hpcp_bass_fmin_hz = |l| g.pick(l, &[55.0f32, 40.0]);
        key_hpcp_bass_fmax_hz = |l| g.pick(l, &[300.0f32, 200.0]);
        key_hpcp_bass_weight = |l| g.pick(l, &[0.35f32, 0.8]);
        key_minor_leading_tone_bonus_weight = |l| g.pick(l, &[0.2f32, 0.8]);
    }
    c
}
