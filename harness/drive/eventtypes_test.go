// Code generated by bin/gen_events.py. DO NOT EDIT.

package drive

import (
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

var eventTypes = map[string]appdash.Event{}

type ev_s_s_1 struct {
	A  string
	AB string
}

func (ev_s_s_1) Schema() string { return "ev_s_s_1" }

type ev_s_i_1 struct {
	A  string
	AB int
}

func (ev_s_i_1) Schema() string { return "ev_s_i_1" }

type ev_s_f_1 struct {
	A  string
	AB float64
}

func (ev_s_f_1) Schema() string { return "ev_s_f_1" }

type ev_s_t_1 struct {
	A  string
	AB time.Time
}

func (ev_s_t_1) Schema() string { return "ev_s_t_1" }

type ev_s_d_1 struct {
	A  string
	AB time.Duration
}

func (ev_s_d_1) Schema() string { return "ev_s_d_1" }

type ev_s_ps_1 struct {
	A  string
	AB *string
}

func (ev_s_ps_1) Schema() string { return "ev_s_ps_1" }

type ev_s_pi_1 struct {
	A  string
	AB *int
}

func (ev_s_pi_1) Schema() string { return "ev_s_pi_1" }

type ev_s_pt_1 struct {
	A  string
	AB *time.Time
}

func (ev_s_pt_1) Schema() string { return "ev_s_pt_1" }

type ev_s_st_1 struct {
	A  string
	AB evIn
}

func (ev_s_st_1) Schema() string { return "ev_s_st_1" }

type ev_s_pst_1 struct {
	A  string
	AB *evIn
}

func (ev_s_pst_1) Schema() string { return "ev_s_pst_1" }

type ev_s_sl_1 struct {
	A  string
	AB []string
}

func (ev_s_sl_1) Schema() string { return "ev_s_sl_1" }

type ev_s_sd_1 struct {
	A  string
	AB []time.Duration
}

func (ev_s_sd_1) Schema() string { return "ev_s_sd_1" }

type ev_s_ar_1 struct {
	A  string
	AB [2]string
}

func (ev_s_ar_1) Schema() string { return "ev_s_ar_1" }

type ev_s_m_1 struct {
	A  string
	AB map[string]string
}

func (ev_s_m_1) Schema() string { return "ev_s_m_1" }

type ev_s_mf_1 struct {
	A  string
	AB map[string]float64
}

func (ev_s_mf_1) Schema() string { return "ev_s_mf_1" }

type ev_i_s_1 struct {
	A  int
	AB string
}

func (ev_i_s_1) Schema() string { return "ev_i_s_1" }

type ev_i_i_1 struct {
	A  int
	AB int
}

func (ev_i_i_1) Schema() string { return "ev_i_i_1" }

type ev_i_f_1 struct {
	A  int
	AB float64
}

func (ev_i_f_1) Schema() string { return "ev_i_f_1" }

type ev_i_t_1 struct {
	A  int
	AB time.Time
}

func (ev_i_t_1) Schema() string { return "ev_i_t_1" }

type ev_i_d_1 struct {
	A  int
	AB time.Duration
}

func (ev_i_d_1) Schema() string { return "ev_i_d_1" }

type ev_i_ps_1 struct {
	A  int
	AB *string
}

func (ev_i_ps_1) Schema() string { return "ev_i_ps_1" }

type ev_i_pi_1 struct {
	A  int
	AB *int
}

func (ev_i_pi_1) Schema() string { return "ev_i_pi_1" }

type ev_i_pt_1 struct {
	A  int
	AB *time.Time
}

func (ev_i_pt_1) Schema() string { return "ev_i_pt_1" }

type ev_i_st_1 struct {
	A  int
	AB evIn
}

func (ev_i_st_1) Schema() string { return "ev_i_st_1" }

type ev_i_pst_1 struct {
	A  int
	AB *evIn
}

func (ev_i_pst_1) Schema() string { return "ev_i_pst_1" }

type ev_i_sl_1 struct {
	A  int
	AB []string
}

func (ev_i_sl_1) Schema() string { return "ev_i_sl_1" }

type ev_i_sd_1 struct {
	A  int
	AB []time.Duration
}

func (ev_i_sd_1) Schema() string { return "ev_i_sd_1" }

type ev_i_ar_1 struct {
	A  int
	AB [2]string
}

func (ev_i_ar_1) Schema() string { return "ev_i_ar_1" }

type ev_i_m_1 struct {
	A  int
	AB map[string]string
}

func (ev_i_m_1) Schema() string { return "ev_i_m_1" }

type ev_i_mf_1 struct {
	A  int
	AB map[string]float64
}

func (ev_i_mf_1) Schema() string { return "ev_i_mf_1" }

type ev_f_s_1 struct {
	A  float64
	AB string
}

func (ev_f_s_1) Schema() string { return "ev_f_s_1" }

type ev_f_i_1 struct {
	A  float64
	AB int
}

func (ev_f_i_1) Schema() string { return "ev_f_i_1" }

type ev_f_f_1 struct {
	A  float64
	AB float64
}

func (ev_f_f_1) Schema() string { return "ev_f_f_1" }

type ev_f_t_1 struct {
	A  float64
	AB time.Time
}

func (ev_f_t_1) Schema() string { return "ev_f_t_1" }

type ev_f_d_1 struct {
	A  float64
	AB time.Duration
}

func (ev_f_d_1) Schema() string { return "ev_f_d_1" }

type ev_f_ps_1 struct {
	A  float64
	AB *string
}

func (ev_f_ps_1) Schema() string { return "ev_f_ps_1" }

type ev_f_pi_1 struct {
	A  float64
	AB *int
}

func (ev_f_pi_1) Schema() string { return "ev_f_pi_1" }

type ev_f_pt_1 struct {
	A  float64
	AB *time.Time
}

func (ev_f_pt_1) Schema() string { return "ev_f_pt_1" }

type ev_f_st_1 struct {
	A  float64
	AB evIn
}

func (ev_f_st_1) Schema() string { return "ev_f_st_1" }

type ev_f_pst_1 struct {
	A  float64
	AB *evIn
}

func (ev_f_pst_1) Schema() string { return "ev_f_pst_1" }

type ev_f_sl_1 struct {
	A  float64
	AB []string
}

func (ev_f_sl_1) Schema() string { return "ev_f_sl_1" }

type ev_f_sd_1 struct {
	A  float64
	AB []time.Duration
}

func (ev_f_sd_1) Schema() string { return "ev_f_sd_1" }

type ev_f_ar_1 struct {
	A  float64
	AB [2]string
}

func (ev_f_ar_1) Schema() string { return "ev_f_ar_1" }

type ev_f_m_1 struct {
	A  float64
	AB map[string]string
}

func (ev_f_m_1) Schema() string { return "ev_f_m_1" }

type ev_f_mf_1 struct {
	A  float64
	AB map[string]float64
}

func (ev_f_mf_1) Schema() string { return "ev_f_mf_1" }

type ev_t_s_1 struct {
	A  time.Time
	AB string
}

func (ev_t_s_1) Schema() string { return "ev_t_s_1" }

type ev_t_i_1 struct {
	A  time.Time
	AB int
}

func (ev_t_i_1) Schema() string { return "ev_t_i_1" }

type ev_t_f_1 struct {
	A  time.Time
	AB float64
}

func (ev_t_f_1) Schema() string { return "ev_t_f_1" }

type ev_t_t_1 struct {
	A  time.Time
	AB time.Time
}

func (ev_t_t_1) Schema() string { return "ev_t_t_1" }

type ev_t_d_1 struct {
	A  time.Time
	AB time.Duration
}

func (ev_t_d_1) Schema() string { return "ev_t_d_1" }

type ev_t_ps_1 struct {
	A  time.Time
	AB *string
}

func (ev_t_ps_1) Schema() string { return "ev_t_ps_1" }

type ev_t_pi_1 struct {
	A  time.Time
	AB *int
}

func (ev_t_pi_1) Schema() string { return "ev_t_pi_1" }

type ev_t_pt_1 struct {
	A  time.Time
	AB *time.Time
}

func (ev_t_pt_1) Schema() string { return "ev_t_pt_1" }

type ev_t_st_1 struct {
	A  time.Time
	AB evIn
}

func (ev_t_st_1) Schema() string { return "ev_t_st_1" }

type ev_t_pst_1 struct {
	A  time.Time
	AB *evIn
}

func (ev_t_pst_1) Schema() string { return "ev_t_pst_1" }

type ev_t_sl_1 struct {
	A  time.Time
	AB []string
}

func (ev_t_sl_1) Schema() string { return "ev_t_sl_1" }

type ev_t_sd_1 struct {
	A  time.Time
	AB []time.Duration
}

func (ev_t_sd_1) Schema() string { return "ev_t_sd_1" }

type ev_t_ar_1 struct {
	A  time.Time
	AB [2]string
}

func (ev_t_ar_1) Schema() string { return "ev_t_ar_1" }

type ev_t_m_1 struct {
	A  time.Time
	AB map[string]string
}

func (ev_t_m_1) Schema() string { return "ev_t_m_1" }

type ev_t_mf_1 struct {
	A  time.Time
	AB map[string]float64
}

func (ev_t_mf_1) Schema() string { return "ev_t_mf_1" }

type ev_d_s_1 struct {
	A  time.Duration
	AB string
}

func (ev_d_s_1) Schema() string { return "ev_d_s_1" }

type ev_d_i_1 struct {
	A  time.Duration
	AB int
}

func (ev_d_i_1) Schema() string { return "ev_d_i_1" }

type ev_d_f_1 struct {
	A  time.Duration
	AB float64
}

func (ev_d_f_1) Schema() string { return "ev_d_f_1" }

type ev_d_t_1 struct {
	A  time.Duration
	AB time.Time
}

func (ev_d_t_1) Schema() string { return "ev_d_t_1" }

type ev_d_d_1 struct {
	A  time.Duration
	AB time.Duration
}

func (ev_d_d_1) Schema() string { return "ev_d_d_1" }

type ev_d_ps_1 struct {
	A  time.Duration
	AB *string
}

func (ev_d_ps_1) Schema() string { return "ev_d_ps_1" }

type ev_d_pi_1 struct {
	A  time.Duration
	AB *int
}

func (ev_d_pi_1) Schema() string { return "ev_d_pi_1" }

type ev_d_pt_1 struct {
	A  time.Duration
	AB *time.Time
}

func (ev_d_pt_1) Schema() string { return "ev_d_pt_1" }

type ev_d_st_1 struct {
	A  time.Duration
	AB evIn
}

func (ev_d_st_1) Schema() string { return "ev_d_st_1" }

type ev_d_pst_1 struct {
	A  time.Duration
	AB *evIn
}

func (ev_d_pst_1) Schema() string { return "ev_d_pst_1" }

type ev_d_sl_1 struct {
	A  time.Duration
	AB []string
}

func (ev_d_sl_1) Schema() string { return "ev_d_sl_1" }

type ev_d_sd_1 struct {
	A  time.Duration
	AB []time.Duration
}

func (ev_d_sd_1) Schema() string { return "ev_d_sd_1" }

type ev_d_ar_1 struct {
	A  time.Duration
	AB [2]string
}

func (ev_d_ar_1) Schema() string { return "ev_d_ar_1" }

type ev_d_m_1 struct {
	A  time.Duration
	AB map[string]string
}

func (ev_d_m_1) Schema() string { return "ev_d_m_1" }

type ev_d_mf_1 struct {
	A  time.Duration
	AB map[string]float64
}

func (ev_d_mf_1) Schema() string { return "ev_d_mf_1" }

type ev_ps_s_1 struct {
	A  *string
	AB string
}

func (ev_ps_s_1) Schema() string { return "ev_ps_s_1" }

type ev_ps_i_1 struct {
	A  *string
	AB int
}

func (ev_ps_i_1) Schema() string { return "ev_ps_i_1" }

type ev_ps_f_1 struct {
	A  *string
	AB float64
}

func (ev_ps_f_1) Schema() string { return "ev_ps_f_1" }

type ev_ps_t_1 struct {
	A  *string
	AB time.Time
}

func (ev_ps_t_1) Schema() string { return "ev_ps_t_1" }

type ev_ps_d_1 struct {
	A  *string
	AB time.Duration
}

func (ev_ps_d_1) Schema() string { return "ev_ps_d_1" }

type ev_ps_ps_1 struct {
	A  *string
	AB *string
}

func (ev_ps_ps_1) Schema() string { return "ev_ps_ps_1" }

type ev_ps_pi_1 struct {
	A  *string
	AB *int
}

func (ev_ps_pi_1) Schema() string { return "ev_ps_pi_1" }

type ev_ps_pt_1 struct {
	A  *string
	AB *time.Time
}

func (ev_ps_pt_1) Schema() string { return "ev_ps_pt_1" }

type ev_ps_st_1 struct {
	A  *string
	AB evIn
}

func (ev_ps_st_1) Schema() string { return "ev_ps_st_1" }

type ev_ps_pst_1 struct {
	A  *string
	AB *evIn
}

func (ev_ps_pst_1) Schema() string { return "ev_ps_pst_1" }

type ev_ps_sl_1 struct {
	A  *string
	AB []string
}

func (ev_ps_sl_1) Schema() string { return "ev_ps_sl_1" }

type ev_ps_sd_1 struct {
	A  *string
	AB []time.Duration
}

func (ev_ps_sd_1) Schema() string { return "ev_ps_sd_1" }

type ev_ps_ar_1 struct {
	A  *string
	AB [2]string
}

func (ev_ps_ar_1) Schema() string { return "ev_ps_ar_1" }

type ev_ps_m_1 struct {
	A  *string
	AB map[string]string
}

func (ev_ps_m_1) Schema() string { return "ev_ps_m_1" }

type ev_ps_mf_1 struct {
	A  *string
	AB map[string]float64
}

func (ev_ps_mf_1) Schema() string { return "ev_ps_mf_1" }

type ev_pi_s_1 struct {
	A  *int
	AB string
}

func (ev_pi_s_1) Schema() string { return "ev_pi_s_1" }

type ev_pi_i_1 struct {
	A  *int
	AB int
}

func (ev_pi_i_1) Schema() string { return "ev_pi_i_1" }

type ev_pi_f_1 struct {
	A  *int
	AB float64
}

func (ev_pi_f_1) Schema() string { return "ev_pi_f_1" }

type ev_pi_t_1 struct {
	A  *int
	AB time.Time
}

func (ev_pi_t_1) Schema() string { return "ev_pi_t_1" }

type ev_pi_d_1 struct {
	A  *int
	AB time.Duration
}

func (ev_pi_d_1) Schema() string { return "ev_pi_d_1" }

type ev_pi_ps_1 struct {
	A  *int
	AB *string
}

func (ev_pi_ps_1) Schema() string { return "ev_pi_ps_1" }

type ev_pi_pi_1 struct {
	A  *int
	AB *int
}

func (ev_pi_pi_1) Schema() string { return "ev_pi_pi_1" }

type ev_pi_pt_1 struct {
	A  *int
	AB *time.Time
}

func (ev_pi_pt_1) Schema() string { return "ev_pi_pt_1" }

type ev_pi_st_1 struct {
	A  *int
	AB evIn
}

func (ev_pi_st_1) Schema() string { return "ev_pi_st_1" }

type ev_pi_pst_1 struct {
	A  *int
	AB *evIn
}

func (ev_pi_pst_1) Schema() string { return "ev_pi_pst_1" }

type ev_pi_sl_1 struct {
	A  *int
	AB []string
}

func (ev_pi_sl_1) Schema() string { return "ev_pi_sl_1" }

type ev_pi_sd_1 struct {
	A  *int
	AB []time.Duration
}

func (ev_pi_sd_1) Schema() string { return "ev_pi_sd_1" }

type ev_pi_ar_1 struct {
	A  *int
	AB [2]string
}

func (ev_pi_ar_1) Schema() string { return "ev_pi_ar_1" }

type ev_pi_m_1 struct {
	A  *int
	AB map[string]string
}

func (ev_pi_m_1) Schema() string { return "ev_pi_m_1" }

type ev_pi_mf_1 struct {
	A  *int
	AB map[string]float64
}

func (ev_pi_mf_1) Schema() string { return "ev_pi_mf_1" }

type ev_pt_s_1 struct {
	A  *time.Time
	AB string
}

func (ev_pt_s_1) Schema() string { return "ev_pt_s_1" }

type ev_pt_i_1 struct {
	A  *time.Time
	AB int
}

func (ev_pt_i_1) Schema() string { return "ev_pt_i_1" }

type ev_pt_f_1 struct {
	A  *time.Time
	AB float64
}

func (ev_pt_f_1) Schema() string { return "ev_pt_f_1" }

type ev_pt_t_1 struct {
	A  *time.Time
	AB time.Time
}

func (ev_pt_t_1) Schema() string { return "ev_pt_t_1" }

type ev_pt_d_1 struct {
	A  *time.Time
	AB time.Duration
}

func (ev_pt_d_1) Schema() string { return "ev_pt_d_1" }

type ev_pt_ps_1 struct {
	A  *time.Time
	AB *string
}

func (ev_pt_ps_1) Schema() string { return "ev_pt_ps_1" }

type ev_pt_pi_1 struct {
	A  *time.Time
	AB *int
}

func (ev_pt_pi_1) Schema() string { return "ev_pt_pi_1" }

type ev_pt_pt_1 struct {
	A  *time.Time
	AB *time.Time
}

func (ev_pt_pt_1) Schema() string { return "ev_pt_pt_1" }

type ev_pt_st_1 struct {
	A  *time.Time
	AB evIn
}

func (ev_pt_st_1) Schema() string { return "ev_pt_st_1" }

type ev_pt_pst_1 struct {
	A  *time.Time
	AB *evIn
}

func (ev_pt_pst_1) Schema() string { return "ev_pt_pst_1" }

type ev_pt_sl_1 struct {
	A  *time.Time
	AB []string
}

func (ev_pt_sl_1) Schema() string { return "ev_pt_sl_1" }

type ev_pt_sd_1 struct {
	A  *time.Time
	AB []time.Duration
}

func (ev_pt_sd_1) Schema() string { return "ev_pt_sd_1" }

type ev_pt_ar_1 struct {
	A  *time.Time
	AB [2]string
}

func (ev_pt_ar_1) Schema() string { return "ev_pt_ar_1" }

type ev_pt_m_1 struct {
	A  *time.Time
	AB map[string]string
}

func (ev_pt_m_1) Schema() string { return "ev_pt_m_1" }

type ev_pt_mf_1 struct {
	A  *time.Time
	AB map[string]float64
}

func (ev_pt_mf_1) Schema() string { return "ev_pt_mf_1" }

type ev_st_s_1 struct {
	A  evIn
	AB string
}

func (ev_st_s_1) Schema() string { return "ev_st_s_1" }

type ev_st_i_1 struct {
	A  evIn
	AB int
}

func (ev_st_i_1) Schema() string { return "ev_st_i_1" }

type ev_st_f_1 struct {
	A  evIn
	AB float64
}

func (ev_st_f_1) Schema() string { return "ev_st_f_1" }

type ev_st_t_1 struct {
	A  evIn
	AB time.Time
}

func (ev_st_t_1) Schema() string { return "ev_st_t_1" }

type ev_st_d_1 struct {
	A  evIn
	AB time.Duration
}

func (ev_st_d_1) Schema() string { return "ev_st_d_1" }

type ev_st_ps_1 struct {
	A  evIn
	AB *string
}

func (ev_st_ps_1) Schema() string { return "ev_st_ps_1" }

type ev_st_pi_1 struct {
	A  evIn
	AB *int
}

func (ev_st_pi_1) Schema() string { return "ev_st_pi_1" }

type ev_st_pt_1 struct {
	A  evIn
	AB *time.Time
}

func (ev_st_pt_1) Schema() string { return "ev_st_pt_1" }

type ev_st_st_1 struct {
	A  evIn
	AB evIn
}

func (ev_st_st_1) Schema() string { return "ev_st_st_1" }

type ev_st_pst_1 struct {
	A  evIn
	AB *evIn
}

func (ev_st_pst_1) Schema() string { return "ev_st_pst_1" }

type ev_st_sl_1 struct {
	A  evIn
	AB []string
}

func (ev_st_sl_1) Schema() string { return "ev_st_sl_1" }

type ev_st_sd_1 struct {
	A  evIn
	AB []time.Duration
}

func (ev_st_sd_1) Schema() string { return "ev_st_sd_1" }

type ev_st_ar_1 struct {
	A  evIn
	AB [2]string
}

func (ev_st_ar_1) Schema() string { return "ev_st_ar_1" }

type ev_st_m_1 struct {
	A  evIn
	AB map[string]string
}

func (ev_st_m_1) Schema() string { return "ev_st_m_1" }

type ev_st_mf_1 struct {
	A  evIn
	AB map[string]float64
}

func (ev_st_mf_1) Schema() string { return "ev_st_mf_1" }

type ev_pst_s_1 struct {
	A  *evIn
	AB string
}

func (ev_pst_s_1) Schema() string { return "ev_pst_s_1" }

type ev_pst_i_1 struct {
	A  *evIn
	AB int
}

func (ev_pst_i_1) Schema() string { return "ev_pst_i_1" }

type ev_pst_f_1 struct {
	A  *evIn
	AB float64
}

func (ev_pst_f_1) Schema() string { return "ev_pst_f_1" }

type ev_pst_t_1 struct {
	A  *evIn
	AB time.Time
}

func (ev_pst_t_1) Schema() string { return "ev_pst_t_1" }

type ev_pst_d_1 struct {
	A  *evIn
	AB time.Duration
}

func (ev_pst_d_1) Schema() string { return "ev_pst_d_1" }

type ev_pst_ps_1 struct {
	A  *evIn
	AB *string
}

func (ev_pst_ps_1) Schema() string { return "ev_pst_ps_1" }

type ev_pst_pi_1 struct {
	A  *evIn
	AB *int
}

func (ev_pst_pi_1) Schema() string { return "ev_pst_pi_1" }

type ev_pst_pt_1 struct {
	A  *evIn
	AB *time.Time
}

func (ev_pst_pt_1) Schema() string { return "ev_pst_pt_1" }

type ev_pst_st_1 struct {
	A  *evIn
	AB evIn
}

func (ev_pst_st_1) Schema() string { return "ev_pst_st_1" }

type ev_pst_pst_1 struct {
	A  *evIn
	AB *evIn
}

func (ev_pst_pst_1) Schema() string { return "ev_pst_pst_1" }

type ev_pst_sl_1 struct {
	A  *evIn
	AB []string
}

func (ev_pst_sl_1) Schema() string { return "ev_pst_sl_1" }

type ev_pst_sd_1 struct {
	A  *evIn
	AB []time.Duration
}

func (ev_pst_sd_1) Schema() string { return "ev_pst_sd_1" }

type ev_pst_ar_1 struct {
	A  *evIn
	AB [2]string
}

func (ev_pst_ar_1) Schema() string { return "ev_pst_ar_1" }

type ev_pst_m_1 struct {
	A  *evIn
	AB map[string]string
}

func (ev_pst_m_1) Schema() string { return "ev_pst_m_1" }

type ev_pst_mf_1 struct {
	A  *evIn
	AB map[string]float64
}

func (ev_pst_mf_1) Schema() string { return "ev_pst_mf_1" }

type ev_sl_s_1 struct {
	A  []string
	AB string
}

func (ev_sl_s_1) Schema() string { return "ev_sl_s_1" }

type ev_sl_i_1 struct {
	A  []string
	AB int
}

func (ev_sl_i_1) Schema() string { return "ev_sl_i_1" }

type ev_sl_f_1 struct {
	A  []string
	AB float64
}

func (ev_sl_f_1) Schema() string { return "ev_sl_f_1" }

type ev_sl_t_1 struct {
	A  []string
	AB time.Time
}

func (ev_sl_t_1) Schema() string { return "ev_sl_t_1" }

type ev_sl_d_1 struct {
	A  []string
	AB time.Duration
}

func (ev_sl_d_1) Schema() string { return "ev_sl_d_1" }

type ev_sl_ps_1 struct {
	A  []string
	AB *string
}

func (ev_sl_ps_1) Schema() string { return "ev_sl_ps_1" }

type ev_sl_pi_1 struct {
	A  []string
	AB *int
}

func (ev_sl_pi_1) Schema() string { return "ev_sl_pi_1" }

type ev_sl_pt_1 struct {
	A  []string
	AB *time.Time
}

func (ev_sl_pt_1) Schema() string { return "ev_sl_pt_1" }

type ev_sl_st_1 struct {
	A  []string
	AB evIn
}

func (ev_sl_st_1) Schema() string { return "ev_sl_st_1" }

type ev_sl_pst_1 struct {
	A  []string
	AB *evIn
}

func (ev_sl_pst_1) Schema() string { return "ev_sl_pst_1" }

type ev_sl_sl_1 struct {
	A  []string
	AB []string
}

func (ev_sl_sl_1) Schema() string { return "ev_sl_sl_1" }

type ev_sl_sd_1 struct {
	A  []string
	AB []time.Duration
}

func (ev_sl_sd_1) Schema() string { return "ev_sl_sd_1" }

type ev_sl_ar_1 struct {
	A  []string
	AB [2]string
}

func (ev_sl_ar_1) Schema() string { return "ev_sl_ar_1" }

type ev_sl_m_1 struct {
	A  []string
	AB map[string]string
}

func (ev_sl_m_1) Schema() string { return "ev_sl_m_1" }

type ev_sl_mf_1 struct {
	A  []string
	AB map[string]float64
}

func (ev_sl_mf_1) Schema() string { return "ev_sl_mf_1" }

type ev_sd_s_1 struct {
	A  []time.Duration
	AB string
}

func (ev_sd_s_1) Schema() string { return "ev_sd_s_1" }

type ev_sd_i_1 struct {
	A  []time.Duration
	AB int
}

func (ev_sd_i_1) Schema() string { return "ev_sd_i_1" }

type ev_sd_f_1 struct {
	A  []time.Duration
	AB float64
}

func (ev_sd_f_1) Schema() string { return "ev_sd_f_1" }

type ev_sd_t_1 struct {
	A  []time.Duration
	AB time.Time
}

func (ev_sd_t_1) Schema() string { return "ev_sd_t_1" }

type ev_sd_d_1 struct {
	A  []time.Duration
	AB time.Duration
}

func (ev_sd_d_1) Schema() string { return "ev_sd_d_1" }

type ev_sd_ps_1 struct {
	A  []time.Duration
	AB *string
}

func (ev_sd_ps_1) Schema() string { return "ev_sd_ps_1" }

type ev_sd_pi_1 struct {
	A  []time.Duration
	AB *int
}

func (ev_sd_pi_1) Schema() string { return "ev_sd_pi_1" }

type ev_sd_pt_1 struct {
	A  []time.Duration
	AB *time.Time
}

func (ev_sd_pt_1) Schema() string { return "ev_sd_pt_1" }

type ev_sd_st_1 struct {
	A  []time.Duration
	AB evIn
}

func (ev_sd_st_1) Schema() string { return "ev_sd_st_1" }

type ev_sd_pst_1 struct {
	A  []time.Duration
	AB *evIn
}

func (ev_sd_pst_1) Schema() string { return "ev_sd_pst_1" }

type ev_sd_sl_1 struct {
	A  []time.Duration
	AB []string
}

func (ev_sd_sl_1) Schema() string { return "ev_sd_sl_1" }

type ev_sd_sd_1 struct {
	A  []time.Duration
	AB []time.Duration
}

func (ev_sd_sd_1) Schema() string { return "ev_sd_sd_1" }

type ev_sd_ar_1 struct {
	A  []time.Duration
	AB [2]string
}

func (ev_sd_ar_1) Schema() string { return "ev_sd_ar_1" }

type ev_sd_m_1 struct {
	A  []time.Duration
	AB map[string]string
}

func (ev_sd_m_1) Schema() string { return "ev_sd_m_1" }

type ev_sd_mf_1 struct {
	A  []time.Duration
	AB map[string]float64
}

func (ev_sd_mf_1) Schema() string { return "ev_sd_mf_1" }

type ev_ar_s_1 struct {
	A  [2]string
	AB string
}

func (ev_ar_s_1) Schema() string { return "ev_ar_s_1" }

type ev_ar_i_1 struct {
	A  [2]string
	AB int
}

func (ev_ar_i_1) Schema() string { return "ev_ar_i_1" }

type ev_ar_f_1 struct {
	A  [2]string
	AB float64
}

func (ev_ar_f_1) Schema() string { return "ev_ar_f_1" }

type ev_ar_t_1 struct {
	A  [2]string
	AB time.Time
}

func (ev_ar_t_1) Schema() string { return "ev_ar_t_1" }

type ev_ar_d_1 struct {
	A  [2]string
	AB time.Duration
}

func (ev_ar_d_1) Schema() string { return "ev_ar_d_1" }

type ev_ar_ps_1 struct {
	A  [2]string
	AB *string
}

func (ev_ar_ps_1) Schema() string { return "ev_ar_ps_1" }

type ev_ar_pi_1 struct {
	A  [2]string
	AB *int
}

func (ev_ar_pi_1) Schema() string { return "ev_ar_pi_1" }

type ev_ar_pt_1 struct {
	A  [2]string
	AB *time.Time
}

func (ev_ar_pt_1) Schema() string { return "ev_ar_pt_1" }

type ev_ar_st_1 struct {
	A  [2]string
	AB evIn
}

func (ev_ar_st_1) Schema() string { return "ev_ar_st_1" }

type ev_ar_pst_1 struct {
	A  [2]string
	AB *evIn
}

func (ev_ar_pst_1) Schema() string { return "ev_ar_pst_1" }

type ev_ar_sl_1 struct {
	A  [2]string
	AB []string
}

func (ev_ar_sl_1) Schema() string { return "ev_ar_sl_1" }

type ev_ar_sd_1 struct {
	A  [2]string
	AB []time.Duration
}

func (ev_ar_sd_1) Schema() string { return "ev_ar_sd_1" }

type ev_ar_ar_1 struct {
	A  [2]string
	AB [2]string
}

func (ev_ar_ar_1) Schema() string { return "ev_ar_ar_1" }

type ev_ar_m_1 struct {
	A  [2]string
	AB map[string]string
}

func (ev_ar_m_1) Schema() string { return "ev_ar_m_1" }

type ev_ar_mf_1 struct {
	A  [2]string
	AB map[string]float64
}

func (ev_ar_mf_1) Schema() string { return "ev_ar_mf_1" }

type ev_m_s_1 struct {
	A  map[string]string
	AB string
}

func (ev_m_s_1) Schema() string { return "ev_m_s_1" }

type ev_m_i_1 struct {
	A  map[string]string
	AB int
}

func (ev_m_i_1) Schema() string { return "ev_m_i_1" }

type ev_m_f_1 struct {
	A  map[string]string
	AB float64
}

func (ev_m_f_1) Schema() string { return "ev_m_f_1" }

type ev_m_t_1 struct {
	A  map[string]string
	AB time.Time
}

func (ev_m_t_1) Schema() string { return "ev_m_t_1" }

type ev_m_d_1 struct {
	A  map[string]string
	AB time.Duration
}

func (ev_m_d_1) Schema() string { return "ev_m_d_1" }

type ev_m_ps_1 struct {
	A  map[string]string
	AB *string
}

func (ev_m_ps_1) Schema() string { return "ev_m_ps_1" }

type ev_m_pi_1 struct {
	A  map[string]string
	AB *int
}

func (ev_m_pi_1) Schema() string { return "ev_m_pi_1" }

type ev_m_pt_1 struct {
	A  map[string]string
	AB *time.Time
}

func (ev_m_pt_1) Schema() string { return "ev_m_pt_1" }

type ev_m_st_1 struct {
	A  map[string]string
	AB evIn
}

func (ev_m_st_1) Schema() string { return "ev_m_st_1" }

type ev_m_pst_1 struct {
	A  map[string]string
	AB *evIn
}

func (ev_m_pst_1) Schema() string { return "ev_m_pst_1" }

type ev_m_sl_1 struct {
	A  map[string]string
	AB []string
}

func (ev_m_sl_1) Schema() string { return "ev_m_sl_1" }

type ev_m_sd_1 struct {
	A  map[string]string
	AB []time.Duration
}

func (ev_m_sd_1) Schema() string { return "ev_m_sd_1" }

type ev_m_ar_1 struct {
	A  map[string]string
	AB [2]string
}

func (ev_m_ar_1) Schema() string { return "ev_m_ar_1" }

type ev_m_m_1 struct {
	A  map[string]string
	AB map[string]string
}

func (ev_m_m_1) Schema() string { return "ev_m_m_1" }

type ev_m_mf_1 struct {
	A  map[string]string
	AB map[string]float64
}

func (ev_m_mf_1) Schema() string { return "ev_m_mf_1" }

type ev_mf_s_1 struct {
	A  map[string]float64
	AB string
}

func (ev_mf_s_1) Schema() string { return "ev_mf_s_1" }

type ev_mf_i_1 struct {
	A  map[string]float64
	AB int
}

func (ev_mf_i_1) Schema() string { return "ev_mf_i_1" }

type ev_mf_f_1 struct {
	A  map[string]float64
	AB float64
}

func (ev_mf_f_1) Schema() string { return "ev_mf_f_1" }

type ev_mf_t_1 struct {
	A  map[string]float64
	AB time.Time
}

func (ev_mf_t_1) Schema() string { return "ev_mf_t_1" }

type ev_mf_d_1 struct {
	A  map[string]float64
	AB time.Duration
}

func (ev_mf_d_1) Schema() string { return "ev_mf_d_1" }

type ev_mf_ps_1 struct {
	A  map[string]float64
	AB *string
}

func (ev_mf_ps_1) Schema() string { return "ev_mf_ps_1" }

type ev_mf_pi_1 struct {
	A  map[string]float64
	AB *int
}

func (ev_mf_pi_1) Schema() string { return "ev_mf_pi_1" }

type ev_mf_pt_1 struct {
	A  map[string]float64
	AB *time.Time
}

func (ev_mf_pt_1) Schema() string { return "ev_mf_pt_1" }

type ev_mf_st_1 struct {
	A  map[string]float64
	AB evIn
}

func (ev_mf_st_1) Schema() string { return "ev_mf_st_1" }

type ev_mf_pst_1 struct {
	A  map[string]float64
	AB *evIn
}

func (ev_mf_pst_1) Schema() string { return "ev_mf_pst_1" }

type ev_mf_sl_1 struct {
	A  map[string]float64
	AB []string
}

func (ev_mf_sl_1) Schema() string { return "ev_mf_sl_1" }

type ev_mf_sd_1 struct {
	A  map[string]float64
	AB []time.Duration
}

func (ev_mf_sd_1) Schema() string { return "ev_mf_sd_1" }

type ev_mf_ar_1 struct {
	A  map[string]float64
	AB [2]string
}

func (ev_mf_ar_1) Schema() string { return "ev_mf_ar_1" }

type ev_mf_m_1 struct {
	A  map[string]float64
	AB map[string]string
}

func (ev_mf_m_1) Schema() string { return "ev_mf_m_1" }

type ev_mf_mf_1 struct {
	A  map[string]float64
	AB map[string]float64
}

func (ev_mf_mf_1) Schema() string { return "ev_mf_mf_1" }

type ev_s_s_2 struct {
	A    string
	F_A_ string `trace:"A-"`
}

func (ev_s_s_2) Schema() string { return "ev_s_s_2" }

type ev_s_i_2 struct {
	A    string
	F_A_ int `trace:"A-"`
}

func (ev_s_i_2) Schema() string { return "ev_s_i_2" }

type ev_s_f_2 struct {
	A    string
	F_A_ float64 `trace:"A-"`
}

func (ev_s_f_2) Schema() string { return "ev_s_f_2" }

type ev_s_t_2 struct {
	A    string
	F_A_ time.Time `trace:"A-"`
}

func (ev_s_t_2) Schema() string { return "ev_s_t_2" }

type ev_s_d_2 struct {
	A    string
	F_A_ time.Duration `trace:"A-"`
}

func (ev_s_d_2) Schema() string { return "ev_s_d_2" }

type ev_s_ps_2 struct {
	A    string
	F_A_ *string `trace:"A-"`
}

func (ev_s_ps_2) Schema() string { return "ev_s_ps_2" }

type ev_s_pi_2 struct {
	A    string
	F_A_ *int `trace:"A-"`
}

func (ev_s_pi_2) Schema() string { return "ev_s_pi_2" }

type ev_s_pt_2 struct {
	A    string
	F_A_ *time.Time `trace:"A-"`
}

func (ev_s_pt_2) Schema() string { return "ev_s_pt_2" }

type ev_s_st_2 struct {
	A    string
	F_A_ evIn `trace:"A-"`
}

func (ev_s_st_2) Schema() string { return "ev_s_st_2" }

type ev_s_pst_2 struct {
	A    string
	F_A_ *evIn `trace:"A-"`
}

func (ev_s_pst_2) Schema() string { return "ev_s_pst_2" }

type ev_s_sl_2 struct {
	A    string
	F_A_ []string `trace:"A-"`
}

func (ev_s_sl_2) Schema() string { return "ev_s_sl_2" }

type ev_s_sd_2 struct {
	A    string
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_s_sd_2) Schema() string { return "ev_s_sd_2" }

type ev_s_ar_2 struct {
	A    string
	F_A_ [2]string `trace:"A-"`
}

func (ev_s_ar_2) Schema() string { return "ev_s_ar_2" }

type ev_s_m_2 struct {
	A    string
	F_A_ map[string]string `trace:"A-"`
}

func (ev_s_m_2) Schema() string { return "ev_s_m_2" }

type ev_s_mf_2 struct {
	A    string
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_s_mf_2) Schema() string { return "ev_s_mf_2" }

type ev_i_s_2 struct {
	A    int
	F_A_ string `trace:"A-"`
}

func (ev_i_s_2) Schema() string { return "ev_i_s_2" }

type ev_i_i_2 struct {
	A    int
	F_A_ int `trace:"A-"`
}

func (ev_i_i_2) Schema() string { return "ev_i_i_2" }

type ev_i_f_2 struct {
	A    int
	F_A_ float64 `trace:"A-"`
}

func (ev_i_f_2) Schema() string { return "ev_i_f_2" }

type ev_i_t_2 struct {
	A    int
	F_A_ time.Time `trace:"A-"`
}

func (ev_i_t_2) Schema() string { return "ev_i_t_2" }

type ev_i_d_2 struct {
	A    int
	F_A_ time.Duration `trace:"A-"`
}

func (ev_i_d_2) Schema() string { return "ev_i_d_2" }

type ev_i_ps_2 struct {
	A    int
	F_A_ *string `trace:"A-"`
}

func (ev_i_ps_2) Schema() string { return "ev_i_ps_2" }

type ev_i_pi_2 struct {
	A    int
	F_A_ *int `trace:"A-"`
}

func (ev_i_pi_2) Schema() string { return "ev_i_pi_2" }

type ev_i_pt_2 struct {
	A    int
	F_A_ *time.Time `trace:"A-"`
}

func (ev_i_pt_2) Schema() string { return "ev_i_pt_2" }

type ev_i_st_2 struct {
	A    int
	F_A_ evIn `trace:"A-"`
}

func (ev_i_st_2) Schema() string { return "ev_i_st_2" }

type ev_i_pst_2 struct {
	A    int
	F_A_ *evIn `trace:"A-"`
}

func (ev_i_pst_2) Schema() string { return "ev_i_pst_2" }

type ev_i_sl_2 struct {
	A    int
	F_A_ []string `trace:"A-"`
}

func (ev_i_sl_2) Schema() string { return "ev_i_sl_2" }

type ev_i_sd_2 struct {
	A    int
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_i_sd_2) Schema() string { return "ev_i_sd_2" }

type ev_i_ar_2 struct {
	A    int
	F_A_ [2]string `trace:"A-"`
}

func (ev_i_ar_2) Schema() string { return "ev_i_ar_2" }

type ev_i_m_2 struct {
	A    int
	F_A_ map[string]string `trace:"A-"`
}

func (ev_i_m_2) Schema() string { return "ev_i_m_2" }

type ev_i_mf_2 struct {
	A    int
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_i_mf_2) Schema() string { return "ev_i_mf_2" }

type ev_f_s_2 struct {
	A    float64
	F_A_ string `trace:"A-"`
}

func (ev_f_s_2) Schema() string { return "ev_f_s_2" }

type ev_f_i_2 struct {
	A    float64
	F_A_ int `trace:"A-"`
}

func (ev_f_i_2) Schema() string { return "ev_f_i_2" }

type ev_f_f_2 struct {
	A    float64
	F_A_ float64 `trace:"A-"`
}

func (ev_f_f_2) Schema() string { return "ev_f_f_2" }

type ev_f_t_2 struct {
	A    float64
	F_A_ time.Time `trace:"A-"`
}

func (ev_f_t_2) Schema() string { return "ev_f_t_2" }

type ev_f_d_2 struct {
	A    float64
	F_A_ time.Duration `trace:"A-"`
}

func (ev_f_d_2) Schema() string { return "ev_f_d_2" }

type ev_f_ps_2 struct {
	A    float64
	F_A_ *string `trace:"A-"`
}

func (ev_f_ps_2) Schema() string { return "ev_f_ps_2" }

type ev_f_pi_2 struct {
	A    float64
	F_A_ *int `trace:"A-"`
}

func (ev_f_pi_2) Schema() string { return "ev_f_pi_2" }

type ev_f_pt_2 struct {
	A    float64
	F_A_ *time.Time `trace:"A-"`
}

func (ev_f_pt_2) Schema() string { return "ev_f_pt_2" }

type ev_f_st_2 struct {
	A    float64
	F_A_ evIn `trace:"A-"`
}

func (ev_f_st_2) Schema() string { return "ev_f_st_2" }

type ev_f_pst_2 struct {
	A    float64
	F_A_ *evIn `trace:"A-"`
}

func (ev_f_pst_2) Schema() string { return "ev_f_pst_2" }

type ev_f_sl_2 struct {
	A    float64
	F_A_ []string `trace:"A-"`
}

func (ev_f_sl_2) Schema() string { return "ev_f_sl_2" }

type ev_f_sd_2 struct {
	A    float64
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_f_sd_2) Schema() string { return "ev_f_sd_2" }

type ev_f_ar_2 struct {
	A    float64
	F_A_ [2]string `trace:"A-"`
}

func (ev_f_ar_2) Schema() string { return "ev_f_ar_2" }

type ev_f_m_2 struct {
	A    float64
	F_A_ map[string]string `trace:"A-"`
}

func (ev_f_m_2) Schema() string { return "ev_f_m_2" }

type ev_f_mf_2 struct {
	A    float64
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_f_mf_2) Schema() string { return "ev_f_mf_2" }

type ev_t_s_2 struct {
	A    time.Time
	F_A_ string `trace:"A-"`
}

func (ev_t_s_2) Schema() string { return "ev_t_s_2" }

type ev_t_i_2 struct {
	A    time.Time
	F_A_ int `trace:"A-"`
}

func (ev_t_i_2) Schema() string { return "ev_t_i_2" }

type ev_t_f_2 struct {
	A    time.Time
	F_A_ float64 `trace:"A-"`
}

func (ev_t_f_2) Schema() string { return "ev_t_f_2" }

type ev_t_t_2 struct {
	A    time.Time
	F_A_ time.Time `trace:"A-"`
}

func (ev_t_t_2) Schema() string { return "ev_t_t_2" }

type ev_t_d_2 struct {
	A    time.Time
	F_A_ time.Duration `trace:"A-"`
}

func (ev_t_d_2) Schema() string { return "ev_t_d_2" }

type ev_t_ps_2 struct {
	A    time.Time
	F_A_ *string `trace:"A-"`
}

func (ev_t_ps_2) Schema() string { return "ev_t_ps_2" }

type ev_t_pi_2 struct {
	A    time.Time
	F_A_ *int `trace:"A-"`
}

func (ev_t_pi_2) Schema() string { return "ev_t_pi_2" }

type ev_t_pt_2 struct {
	A    time.Time
	F_A_ *time.Time `trace:"A-"`
}

func (ev_t_pt_2) Schema() string { return "ev_t_pt_2" }

type ev_t_st_2 struct {
	A    time.Time
	F_A_ evIn `trace:"A-"`
}

func (ev_t_st_2) Schema() string { return "ev_t_st_2" }

type ev_t_pst_2 struct {
	A    time.Time
	F_A_ *evIn `trace:"A-"`
}

func (ev_t_pst_2) Schema() string { return "ev_t_pst_2" }

type ev_t_sl_2 struct {
	A    time.Time
	F_A_ []string `trace:"A-"`
}

func (ev_t_sl_2) Schema() string { return "ev_t_sl_2" }

type ev_t_sd_2 struct {
	A    time.Time
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_t_sd_2) Schema() string { return "ev_t_sd_2" }

type ev_t_ar_2 struct {
	A    time.Time
	F_A_ [2]string `trace:"A-"`
}

func (ev_t_ar_2) Schema() string { return "ev_t_ar_2" }

type ev_t_m_2 struct {
	A    time.Time
	F_A_ map[string]string `trace:"A-"`
}

func (ev_t_m_2) Schema() string { return "ev_t_m_2" }

type ev_t_mf_2 struct {
	A    time.Time
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_t_mf_2) Schema() string { return "ev_t_mf_2" }

type ev_d_s_2 struct {
	A    time.Duration
	F_A_ string `trace:"A-"`
}

func (ev_d_s_2) Schema() string { return "ev_d_s_2" }

type ev_d_i_2 struct {
	A    time.Duration
	F_A_ int `trace:"A-"`
}

func (ev_d_i_2) Schema() string { return "ev_d_i_2" }

type ev_d_f_2 struct {
	A    time.Duration
	F_A_ float64 `trace:"A-"`
}

func (ev_d_f_2) Schema() string { return "ev_d_f_2" }

type ev_d_t_2 struct {
	A    time.Duration
	F_A_ time.Time `trace:"A-"`
}

func (ev_d_t_2) Schema() string { return "ev_d_t_2" }

type ev_d_d_2 struct {
	A    time.Duration
	F_A_ time.Duration `trace:"A-"`
}

func (ev_d_d_2) Schema() string { return "ev_d_d_2" }

type ev_d_ps_2 struct {
	A    time.Duration
	F_A_ *string `trace:"A-"`
}

func (ev_d_ps_2) Schema() string { return "ev_d_ps_2" }

type ev_d_pi_2 struct {
	A    time.Duration
	F_A_ *int `trace:"A-"`
}

func (ev_d_pi_2) Schema() string { return "ev_d_pi_2" }

type ev_d_pt_2 struct {
	A    time.Duration
	F_A_ *time.Time `trace:"A-"`
}

func (ev_d_pt_2) Schema() string { return "ev_d_pt_2" }

type ev_d_st_2 struct {
	A    time.Duration
	F_A_ evIn `trace:"A-"`
}

func (ev_d_st_2) Schema() string { return "ev_d_st_2" }

type ev_d_pst_2 struct {
	A    time.Duration
	F_A_ *evIn `trace:"A-"`
}

func (ev_d_pst_2) Schema() string { return "ev_d_pst_2" }

type ev_d_sl_2 struct {
	A    time.Duration
	F_A_ []string `trace:"A-"`
}

func (ev_d_sl_2) Schema() string { return "ev_d_sl_2" }

type ev_d_sd_2 struct {
	A    time.Duration
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_d_sd_2) Schema() string { return "ev_d_sd_2" }

type ev_d_ar_2 struct {
	A    time.Duration
	F_A_ [2]string `trace:"A-"`
}

func (ev_d_ar_2) Schema() string { return "ev_d_ar_2" }

type ev_d_m_2 struct {
	A    time.Duration
	F_A_ map[string]string `trace:"A-"`
}

func (ev_d_m_2) Schema() string { return "ev_d_m_2" }

type ev_d_mf_2 struct {
	A    time.Duration
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_d_mf_2) Schema() string { return "ev_d_mf_2" }

type ev_ps_s_2 struct {
	A    *string
	F_A_ string `trace:"A-"`
}

func (ev_ps_s_2) Schema() string { return "ev_ps_s_2" }

type ev_ps_i_2 struct {
	A    *string
	F_A_ int `trace:"A-"`
}

func (ev_ps_i_2) Schema() string { return "ev_ps_i_2" }

type ev_ps_f_2 struct {
	A    *string
	F_A_ float64 `trace:"A-"`
}

func (ev_ps_f_2) Schema() string { return "ev_ps_f_2" }

type ev_ps_t_2 struct {
	A    *string
	F_A_ time.Time `trace:"A-"`
}

func (ev_ps_t_2) Schema() string { return "ev_ps_t_2" }

type ev_ps_d_2 struct {
	A    *string
	F_A_ time.Duration `trace:"A-"`
}

func (ev_ps_d_2) Schema() string { return "ev_ps_d_2" }

type ev_ps_ps_2 struct {
	A    *string
	F_A_ *string `trace:"A-"`
}

func (ev_ps_ps_2) Schema() string { return "ev_ps_ps_2" }

type ev_ps_pi_2 struct {
	A    *string
	F_A_ *int `trace:"A-"`
}

func (ev_ps_pi_2) Schema() string { return "ev_ps_pi_2" }

type ev_ps_pt_2 struct {
	A    *string
	F_A_ *time.Time `trace:"A-"`
}

func (ev_ps_pt_2) Schema() string { return "ev_ps_pt_2" }

type ev_ps_st_2 struct {
	A    *string
	F_A_ evIn `trace:"A-"`
}

func (ev_ps_st_2) Schema() string { return "ev_ps_st_2" }

type ev_ps_pst_2 struct {
	A    *string
	F_A_ *evIn `trace:"A-"`
}

func (ev_ps_pst_2) Schema() string { return "ev_ps_pst_2" }

type ev_ps_sl_2 struct {
	A    *string
	F_A_ []string `trace:"A-"`
}

func (ev_ps_sl_2) Schema() string { return "ev_ps_sl_2" }

type ev_ps_sd_2 struct {
	A    *string
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_ps_sd_2) Schema() string { return "ev_ps_sd_2" }

type ev_ps_ar_2 struct {
	A    *string
	F_A_ [2]string `trace:"A-"`
}

func (ev_ps_ar_2) Schema() string { return "ev_ps_ar_2" }

type ev_ps_m_2 struct {
	A    *string
	F_A_ map[string]string `trace:"A-"`
}

func (ev_ps_m_2) Schema() string { return "ev_ps_m_2" }

type ev_ps_mf_2 struct {
	A    *string
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_ps_mf_2) Schema() string { return "ev_ps_mf_2" }

type ev_pi_s_2 struct {
	A    *int
	F_A_ string `trace:"A-"`
}

func (ev_pi_s_2) Schema() string { return "ev_pi_s_2" }

type ev_pi_i_2 struct {
	A    *int
	F_A_ int `trace:"A-"`
}

func (ev_pi_i_2) Schema() string { return "ev_pi_i_2" }

type ev_pi_f_2 struct {
	A    *int
	F_A_ float64 `trace:"A-"`
}

func (ev_pi_f_2) Schema() string { return "ev_pi_f_2" }

type ev_pi_t_2 struct {
	A    *int
	F_A_ time.Time `trace:"A-"`
}

func (ev_pi_t_2) Schema() string { return "ev_pi_t_2" }

type ev_pi_d_2 struct {
	A    *int
	F_A_ time.Duration `trace:"A-"`
}

func (ev_pi_d_2) Schema() string { return "ev_pi_d_2" }

type ev_pi_ps_2 struct {
	A    *int
	F_A_ *string `trace:"A-"`
}

func (ev_pi_ps_2) Schema() string { return "ev_pi_ps_2" }

type ev_pi_pi_2 struct {
	A    *int
	F_A_ *int `trace:"A-"`
}

func (ev_pi_pi_2) Schema() string { return "ev_pi_pi_2" }

type ev_pi_pt_2 struct {
	A    *int
	F_A_ *time.Time `trace:"A-"`
}

func (ev_pi_pt_2) Schema() string { return "ev_pi_pt_2" }

type ev_pi_st_2 struct {
	A    *int
	F_A_ evIn `trace:"A-"`
}

func (ev_pi_st_2) Schema() string { return "ev_pi_st_2" }

type ev_pi_pst_2 struct {
	A    *int
	F_A_ *evIn `trace:"A-"`
}

func (ev_pi_pst_2) Schema() string { return "ev_pi_pst_2" }

type ev_pi_sl_2 struct {
	A    *int
	F_A_ []string `trace:"A-"`
}

func (ev_pi_sl_2) Schema() string { return "ev_pi_sl_2" }

type ev_pi_sd_2 struct {
	A    *int
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_pi_sd_2) Schema() string { return "ev_pi_sd_2" }

type ev_pi_ar_2 struct {
	A    *int
	F_A_ [2]string `trace:"A-"`
}

func (ev_pi_ar_2) Schema() string { return "ev_pi_ar_2" }

type ev_pi_m_2 struct {
	A    *int
	F_A_ map[string]string `trace:"A-"`
}

func (ev_pi_m_2) Schema() string { return "ev_pi_m_2" }

type ev_pi_mf_2 struct {
	A    *int
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_pi_mf_2) Schema() string { return "ev_pi_mf_2" }

type ev_pt_s_2 struct {
	A    *time.Time
	F_A_ string `trace:"A-"`
}

func (ev_pt_s_2) Schema() string { return "ev_pt_s_2" }

type ev_pt_i_2 struct {
	A    *time.Time
	F_A_ int `trace:"A-"`
}

func (ev_pt_i_2) Schema() string { return "ev_pt_i_2" }

type ev_pt_f_2 struct {
	A    *time.Time
	F_A_ float64 `trace:"A-"`
}

func (ev_pt_f_2) Schema() string { return "ev_pt_f_2" }

type ev_pt_t_2 struct {
	A    *time.Time
	F_A_ time.Time `trace:"A-"`
}

func (ev_pt_t_2) Schema() string { return "ev_pt_t_2" }

type ev_pt_d_2 struct {
	A    *time.Time
	F_A_ time.Duration `trace:"A-"`
}

func (ev_pt_d_2) Schema() string { return "ev_pt_d_2" }

type ev_pt_ps_2 struct {
	A    *time.Time
	F_A_ *string `trace:"A-"`
}

func (ev_pt_ps_2) Schema() string { return "ev_pt_ps_2" }

type ev_pt_pi_2 struct {
	A    *time.Time
	F_A_ *int `trace:"A-"`
}

func (ev_pt_pi_2) Schema() string { return "ev_pt_pi_2" }

type ev_pt_pt_2 struct {
	A    *time.Time
	F_A_ *time.Time `trace:"A-"`
}

func (ev_pt_pt_2) Schema() string { return "ev_pt_pt_2" }

type ev_pt_st_2 struct {
	A    *time.Time
	F_A_ evIn `trace:"A-"`
}

func (ev_pt_st_2) Schema() string { return "ev_pt_st_2" }

type ev_pt_pst_2 struct {
	A    *time.Time
	F_A_ *evIn `trace:"A-"`
}

func (ev_pt_pst_2) Schema() string { return "ev_pt_pst_2" }

type ev_pt_sl_2 struct {
	A    *time.Time
	F_A_ []string `trace:"A-"`
}

func (ev_pt_sl_2) Schema() string { return "ev_pt_sl_2" }

type ev_pt_sd_2 struct {
	A    *time.Time
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_pt_sd_2) Schema() string { return "ev_pt_sd_2" }

type ev_pt_ar_2 struct {
	A    *time.Time
	F_A_ [2]string `trace:"A-"`
}

func (ev_pt_ar_2) Schema() string { return "ev_pt_ar_2" }

type ev_pt_m_2 struct {
	A    *time.Time
	F_A_ map[string]string `trace:"A-"`
}

func (ev_pt_m_2) Schema() string { return "ev_pt_m_2" }

type ev_pt_mf_2 struct {
	A    *time.Time
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_pt_mf_2) Schema() string { return "ev_pt_mf_2" }

type ev_st_s_2 struct {
	A    evIn
	F_A_ string `trace:"A-"`
}

func (ev_st_s_2) Schema() string { return "ev_st_s_2" }

type ev_st_i_2 struct {
	A    evIn
	F_A_ int `trace:"A-"`
}

func (ev_st_i_2) Schema() string { return "ev_st_i_2" }

type ev_st_f_2 struct {
	A    evIn
	F_A_ float64 `trace:"A-"`
}

func (ev_st_f_2) Schema() string { return "ev_st_f_2" }

type ev_st_t_2 struct {
	A    evIn
	F_A_ time.Time `trace:"A-"`
}

func (ev_st_t_2) Schema() string { return "ev_st_t_2" }

type ev_st_d_2 struct {
	A    evIn
	F_A_ time.Duration `trace:"A-"`
}

func (ev_st_d_2) Schema() string { return "ev_st_d_2" }

type ev_st_ps_2 struct {
	A    evIn
	F_A_ *string `trace:"A-"`
}

func (ev_st_ps_2) Schema() string { return "ev_st_ps_2" }

type ev_st_pi_2 struct {
	A    evIn
	F_A_ *int `trace:"A-"`
}

func (ev_st_pi_2) Schema() string { return "ev_st_pi_2" }

type ev_st_pt_2 struct {
	A    evIn
	F_A_ *time.Time `trace:"A-"`
}

func (ev_st_pt_2) Schema() string { return "ev_st_pt_2" }

type ev_st_st_2 struct {
	A    evIn
	F_A_ evIn `trace:"A-"`
}

func (ev_st_st_2) Schema() string { return "ev_st_st_2" }

type ev_st_pst_2 struct {
	A    evIn
	F_A_ *evIn `trace:"A-"`
}

func (ev_st_pst_2) Schema() string { return "ev_st_pst_2" }

type ev_st_sl_2 struct {
	A    evIn
	F_A_ []string `trace:"A-"`
}

func (ev_st_sl_2) Schema() string { return "ev_st_sl_2" }

type ev_st_sd_2 struct {
	A    evIn
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_st_sd_2) Schema() string { return "ev_st_sd_2" }

type ev_st_ar_2 struct {
	A    evIn
	F_A_ [2]string `trace:"A-"`
}

func (ev_st_ar_2) Schema() string { return "ev_st_ar_2" }

type ev_st_m_2 struct {
	A    evIn
	F_A_ map[string]string `trace:"A-"`
}

func (ev_st_m_2) Schema() string { return "ev_st_m_2" }

type ev_st_mf_2 struct {
	A    evIn
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_st_mf_2) Schema() string { return "ev_st_mf_2" }

type ev_pst_s_2 struct {
	A    *evIn
	F_A_ string `trace:"A-"`
}

func (ev_pst_s_2) Schema() string { return "ev_pst_s_2" }

type ev_pst_i_2 struct {
	A    *evIn
	F_A_ int `trace:"A-"`
}

func (ev_pst_i_2) Schema() string { return "ev_pst_i_2" }

type ev_pst_f_2 struct {
	A    *evIn
	F_A_ float64 `trace:"A-"`
}

func (ev_pst_f_2) Schema() string { return "ev_pst_f_2" }

type ev_pst_t_2 struct {
	A    *evIn
	F_A_ time.Time `trace:"A-"`
}

func (ev_pst_t_2) Schema() string { return "ev_pst_t_2" }

type ev_pst_d_2 struct {
	A    *evIn
	F_A_ time.Duration `trace:"A-"`
}

func (ev_pst_d_2) Schema() string { return "ev_pst_d_2" }

type ev_pst_ps_2 struct {
	A    *evIn
	F_A_ *string `trace:"A-"`
}

func (ev_pst_ps_2) Schema() string { return "ev_pst_ps_2" }

type ev_pst_pi_2 struct {
	A    *evIn
	F_A_ *int `trace:"A-"`
}

func (ev_pst_pi_2) Schema() string { return "ev_pst_pi_2" }

type ev_pst_pt_2 struct {
	A    *evIn
	F_A_ *time.Time `trace:"A-"`
}

func (ev_pst_pt_2) Schema() string { return "ev_pst_pt_2" }

type ev_pst_st_2 struct {
	A    *evIn
	F_A_ evIn `trace:"A-"`
}

func (ev_pst_st_2) Schema() string { return "ev_pst_st_2" }

type ev_pst_pst_2 struct {
	A    *evIn
	F_A_ *evIn `trace:"A-"`
}

func (ev_pst_pst_2) Schema() string { return "ev_pst_pst_2" }

type ev_pst_sl_2 struct {
	A    *evIn
	F_A_ []string `trace:"A-"`
}

func (ev_pst_sl_2) Schema() string { return "ev_pst_sl_2" }

type ev_pst_sd_2 struct {
	A    *evIn
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_pst_sd_2) Schema() string { return "ev_pst_sd_2" }

type ev_pst_ar_2 struct {
	A    *evIn
	F_A_ [2]string `trace:"A-"`
}

func (ev_pst_ar_2) Schema() string { return "ev_pst_ar_2" }

type ev_pst_m_2 struct {
	A    *evIn
	F_A_ map[string]string `trace:"A-"`
}

func (ev_pst_m_2) Schema() string { return "ev_pst_m_2" }

type ev_pst_mf_2 struct {
	A    *evIn
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_pst_mf_2) Schema() string { return "ev_pst_mf_2" }

type ev_sl_s_2 struct {
	A    []string
	F_A_ string `trace:"A-"`
}

func (ev_sl_s_2) Schema() string { return "ev_sl_s_2" }

type ev_sl_i_2 struct {
	A    []string
	F_A_ int `trace:"A-"`
}

func (ev_sl_i_2) Schema() string { return "ev_sl_i_2" }

type ev_sl_f_2 struct {
	A    []string
	F_A_ float64 `trace:"A-"`
}

func (ev_sl_f_2) Schema() string { return "ev_sl_f_2" }

type ev_sl_t_2 struct {
	A    []string
	F_A_ time.Time `trace:"A-"`
}

func (ev_sl_t_2) Schema() string { return "ev_sl_t_2" }

type ev_sl_d_2 struct {
	A    []string
	F_A_ time.Duration `trace:"A-"`
}

func (ev_sl_d_2) Schema() string { return "ev_sl_d_2" }

type ev_sl_ps_2 struct {
	A    []string
	F_A_ *string `trace:"A-"`
}

func (ev_sl_ps_2) Schema() string { return "ev_sl_ps_2" }

type ev_sl_pi_2 struct {
	A    []string
	F_A_ *int `trace:"A-"`
}

func (ev_sl_pi_2) Schema() string { return "ev_sl_pi_2" }

type ev_sl_pt_2 struct {
	A    []string
	F_A_ *time.Time `trace:"A-"`
}

func (ev_sl_pt_2) Schema() string { return "ev_sl_pt_2" }

type ev_sl_st_2 struct {
	A    []string
	F_A_ evIn `trace:"A-"`
}

func (ev_sl_st_2) Schema() string { return "ev_sl_st_2" }

type ev_sl_pst_2 struct {
	A    []string
	F_A_ *evIn `trace:"A-"`
}

func (ev_sl_pst_2) Schema() string { return "ev_sl_pst_2" }

type ev_sl_sl_2 struct {
	A    []string
	F_A_ []string `trace:"A-"`
}

func (ev_sl_sl_2) Schema() string { return "ev_sl_sl_2" }

type ev_sl_sd_2 struct {
	A    []string
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_sl_sd_2) Schema() string { return "ev_sl_sd_2" }

type ev_sl_ar_2 struct {
	A    []string
	F_A_ [2]string `trace:"A-"`
}

func (ev_sl_ar_2) Schema() string { return "ev_sl_ar_2" }

type ev_sl_m_2 struct {
	A    []string
	F_A_ map[string]string `trace:"A-"`
}

func (ev_sl_m_2) Schema() string { return "ev_sl_m_2" }

type ev_sl_mf_2 struct {
	A    []string
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_sl_mf_2) Schema() string { return "ev_sl_mf_2" }

type ev_sd_s_2 struct {
	A    []time.Duration
	F_A_ string `trace:"A-"`
}

func (ev_sd_s_2) Schema() string { return "ev_sd_s_2" }

type ev_sd_i_2 struct {
	A    []time.Duration
	F_A_ int `trace:"A-"`
}

func (ev_sd_i_2) Schema() string { return "ev_sd_i_2" }

type ev_sd_f_2 struct {
	A    []time.Duration
	F_A_ float64 `trace:"A-"`
}

func (ev_sd_f_2) Schema() string { return "ev_sd_f_2" }

type ev_sd_t_2 struct {
	A    []time.Duration
	F_A_ time.Time `trace:"A-"`
}

func (ev_sd_t_2) Schema() string { return "ev_sd_t_2" }

type ev_sd_d_2 struct {
	A    []time.Duration
	F_A_ time.Duration `trace:"A-"`
}

func (ev_sd_d_2) Schema() string { return "ev_sd_d_2" }

type ev_sd_ps_2 struct {
	A    []time.Duration
	F_A_ *string `trace:"A-"`
}

func (ev_sd_ps_2) Schema() string { return "ev_sd_ps_2" }

type ev_sd_pi_2 struct {
	A    []time.Duration
	F_A_ *int `trace:"A-"`
}

func (ev_sd_pi_2) Schema() string { return "ev_sd_pi_2" }

type ev_sd_pt_2 struct {
	A    []time.Duration
	F_A_ *time.Time `trace:"A-"`
}

func (ev_sd_pt_2) Schema() string { return "ev_sd_pt_2" }

type ev_sd_st_2 struct {
	A    []time.Duration
	F_A_ evIn `trace:"A-"`
}

func (ev_sd_st_2) Schema() string { return "ev_sd_st_2" }

type ev_sd_pst_2 struct {
	A    []time.Duration
	F_A_ *evIn `trace:"A-"`
}

func (ev_sd_pst_2) Schema() string { return "ev_sd_pst_2" }

type ev_sd_sl_2 struct {
	A    []time.Duration
	F_A_ []string `trace:"A-"`
}

func (ev_sd_sl_2) Schema() string { return "ev_sd_sl_2" }

type ev_sd_sd_2 struct {
	A    []time.Duration
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_sd_sd_2) Schema() string { return "ev_sd_sd_2" }

type ev_sd_ar_2 struct {
	A    []time.Duration
	F_A_ [2]string `trace:"A-"`
}

func (ev_sd_ar_2) Schema() string { return "ev_sd_ar_2" }

type ev_sd_m_2 struct {
	A    []time.Duration
	F_A_ map[string]string `trace:"A-"`
}

func (ev_sd_m_2) Schema() string { return "ev_sd_m_2" }

type ev_sd_mf_2 struct {
	A    []time.Duration
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_sd_mf_2) Schema() string { return "ev_sd_mf_2" }

type ev_ar_s_2 struct {
	A    [2]string
	F_A_ string `trace:"A-"`
}

func (ev_ar_s_2) Schema() string { return "ev_ar_s_2" }

type ev_ar_i_2 struct {
	A    [2]string
	F_A_ int `trace:"A-"`
}

func (ev_ar_i_2) Schema() string { return "ev_ar_i_2" }

type ev_ar_f_2 struct {
	A    [2]string
	F_A_ float64 `trace:"A-"`
}

func (ev_ar_f_2) Schema() string { return "ev_ar_f_2" }

type ev_ar_t_2 struct {
	A    [2]string
	F_A_ time.Time `trace:"A-"`
}

func (ev_ar_t_2) Schema() string { return "ev_ar_t_2" }

type ev_ar_d_2 struct {
	A    [2]string
	F_A_ time.Duration `trace:"A-"`
}

func (ev_ar_d_2) Schema() string { return "ev_ar_d_2" }

type ev_ar_ps_2 struct {
	A    [2]string
	F_A_ *string `trace:"A-"`
}

func (ev_ar_ps_2) Schema() string { return "ev_ar_ps_2" }

type ev_ar_pi_2 struct {
	A    [2]string
	F_A_ *int `trace:"A-"`
}

func (ev_ar_pi_2) Schema() string { return "ev_ar_pi_2" }

type ev_ar_pt_2 struct {
	A    [2]string
	F_A_ *time.Time `trace:"A-"`
}

func (ev_ar_pt_2) Schema() string { return "ev_ar_pt_2" }

type ev_ar_st_2 struct {
	A    [2]string
	F_A_ evIn `trace:"A-"`
}

func (ev_ar_st_2) Schema() string { return "ev_ar_st_2" }

type ev_ar_pst_2 struct {
	A    [2]string
	F_A_ *evIn `trace:"A-"`
}

func (ev_ar_pst_2) Schema() string { return "ev_ar_pst_2" }

type ev_ar_sl_2 struct {
	A    [2]string
	F_A_ []string `trace:"A-"`
}

func (ev_ar_sl_2) Schema() string { return "ev_ar_sl_2" }

type ev_ar_sd_2 struct {
	A    [2]string
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_ar_sd_2) Schema() string { return "ev_ar_sd_2" }

type ev_ar_ar_2 struct {
	A    [2]string
	F_A_ [2]string `trace:"A-"`
}

func (ev_ar_ar_2) Schema() string { return "ev_ar_ar_2" }

type ev_ar_m_2 struct {
	A    [2]string
	F_A_ map[string]string `trace:"A-"`
}

func (ev_ar_m_2) Schema() string { return "ev_ar_m_2" }

type ev_ar_mf_2 struct {
	A    [2]string
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_ar_mf_2) Schema() string { return "ev_ar_mf_2" }

type ev_m_s_2 struct {
	A    map[string]string
	F_A_ string `trace:"A-"`
}

func (ev_m_s_2) Schema() string { return "ev_m_s_2" }

type ev_m_i_2 struct {
	A    map[string]string
	F_A_ int `trace:"A-"`
}

func (ev_m_i_2) Schema() string { return "ev_m_i_2" }

type ev_m_f_2 struct {
	A    map[string]string
	F_A_ float64 `trace:"A-"`
}

func (ev_m_f_2) Schema() string { return "ev_m_f_2" }

type ev_m_t_2 struct {
	A    map[string]string
	F_A_ time.Time `trace:"A-"`
}

func (ev_m_t_2) Schema() string { return "ev_m_t_2" }

type ev_m_d_2 struct {
	A    map[string]string
	F_A_ time.Duration `trace:"A-"`
}

func (ev_m_d_2) Schema() string { return "ev_m_d_2" }

type ev_m_ps_2 struct {
	A    map[string]string
	F_A_ *string `trace:"A-"`
}

func (ev_m_ps_2) Schema() string { return "ev_m_ps_2" }

type ev_m_pi_2 struct {
	A    map[string]string
	F_A_ *int `trace:"A-"`
}

func (ev_m_pi_2) Schema() string { return "ev_m_pi_2" }

type ev_m_pt_2 struct {
	A    map[string]string
	F_A_ *time.Time `trace:"A-"`
}

func (ev_m_pt_2) Schema() string { return "ev_m_pt_2" }

type ev_m_st_2 struct {
	A    map[string]string
	F_A_ evIn `trace:"A-"`
}

func (ev_m_st_2) Schema() string { return "ev_m_st_2" }

type ev_m_pst_2 struct {
	A    map[string]string
	F_A_ *evIn `trace:"A-"`
}

func (ev_m_pst_2) Schema() string { return "ev_m_pst_2" }

type ev_m_sl_2 struct {
	A    map[string]string
	F_A_ []string `trace:"A-"`
}

func (ev_m_sl_2) Schema() string { return "ev_m_sl_2" }

type ev_m_sd_2 struct {
	A    map[string]string
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_m_sd_2) Schema() string { return "ev_m_sd_2" }

type ev_m_ar_2 struct {
	A    map[string]string
	F_A_ [2]string `trace:"A-"`
}

func (ev_m_ar_2) Schema() string { return "ev_m_ar_2" }

type ev_m_m_2 struct {
	A    map[string]string
	F_A_ map[string]string `trace:"A-"`
}

func (ev_m_m_2) Schema() string { return "ev_m_m_2" }

type ev_m_mf_2 struct {
	A    map[string]string
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_m_mf_2) Schema() string { return "ev_m_mf_2" }

type ev_mf_s_2 struct {
	A    map[string]float64
	F_A_ string `trace:"A-"`
}

func (ev_mf_s_2) Schema() string { return "ev_mf_s_2" }

type ev_mf_i_2 struct {
	A    map[string]float64
	F_A_ int `trace:"A-"`
}

func (ev_mf_i_2) Schema() string { return "ev_mf_i_2" }

type ev_mf_f_2 struct {
	A    map[string]float64
	F_A_ float64 `trace:"A-"`
}

func (ev_mf_f_2) Schema() string { return "ev_mf_f_2" }

type ev_mf_t_2 struct {
	A    map[string]float64
	F_A_ time.Time `trace:"A-"`
}

func (ev_mf_t_2) Schema() string { return "ev_mf_t_2" }

type ev_mf_d_2 struct {
	A    map[string]float64
	F_A_ time.Duration `trace:"A-"`
}

func (ev_mf_d_2) Schema() string { return "ev_mf_d_2" }

type ev_mf_ps_2 struct {
	A    map[string]float64
	F_A_ *string `trace:"A-"`
}

func (ev_mf_ps_2) Schema() string { return "ev_mf_ps_2" }

type ev_mf_pi_2 struct {
	A    map[string]float64
	F_A_ *int `trace:"A-"`
}

func (ev_mf_pi_2) Schema() string { return "ev_mf_pi_2" }

type ev_mf_pt_2 struct {
	A    map[string]float64
	F_A_ *time.Time `trace:"A-"`
}

func (ev_mf_pt_2) Schema() string { return "ev_mf_pt_2" }

type ev_mf_st_2 struct {
	A    map[string]float64
	F_A_ evIn `trace:"A-"`
}

func (ev_mf_st_2) Schema() string { return "ev_mf_st_2" }

type ev_mf_pst_2 struct {
	A    map[string]float64
	F_A_ *evIn `trace:"A-"`
}

func (ev_mf_pst_2) Schema() string { return "ev_mf_pst_2" }

type ev_mf_sl_2 struct {
	A    map[string]float64
	F_A_ []string `trace:"A-"`
}

func (ev_mf_sl_2) Schema() string { return "ev_mf_sl_2" }

type ev_mf_sd_2 struct {
	A    map[string]float64
	F_A_ []time.Duration `trace:"A-"`
}

func (ev_mf_sd_2) Schema() string { return "ev_mf_sd_2" }

type ev_mf_ar_2 struct {
	A    map[string]float64
	F_A_ [2]string `trace:"A-"`
}

func (ev_mf_ar_2) Schema() string { return "ev_mf_ar_2" }

type ev_mf_m_2 struct {
	A    map[string]float64
	F_A_ map[string]string `trace:"A-"`
}

func (ev_mf_m_2) Schema() string { return "ev_mf_m_2" }

type ev_mf_mf_2 struct {
	A    map[string]float64
	F_A_ map[string]float64 `trace:"A-"`
}

func (ev_mf_mf_2) Schema() string { return "ev_mf_mf_2" }

type ev_s_s_3 struct {
	B string
	A string
}

func (ev_s_s_3) Schema() string { return "ev_s_s_3" }

type ev_s_i_3 struct {
	B string
	A int
}

func (ev_s_i_3) Schema() string { return "ev_s_i_3" }

type ev_s_f_3 struct {
	B string
	A float64
}

func (ev_s_f_3) Schema() string { return "ev_s_f_3" }

type ev_s_t_3 struct {
	B string
	A time.Time
}

func (ev_s_t_3) Schema() string { return "ev_s_t_3" }

type ev_s_d_3 struct {
	B string
	A time.Duration
}

func (ev_s_d_3) Schema() string { return "ev_s_d_3" }

type ev_s_ps_3 struct {
	B string
	A *string
}

func (ev_s_ps_3) Schema() string { return "ev_s_ps_3" }

type ev_s_pi_3 struct {
	B string
	A *int
}

func (ev_s_pi_3) Schema() string { return "ev_s_pi_3" }

type ev_s_pt_3 struct {
	B string
	A *time.Time
}

func (ev_s_pt_3) Schema() string { return "ev_s_pt_3" }

type ev_s_st_3 struct {
	B string
	A evIn
}

func (ev_s_st_3) Schema() string { return "ev_s_st_3" }

type ev_s_pst_3 struct {
	B string
	A *evIn
}

func (ev_s_pst_3) Schema() string { return "ev_s_pst_3" }

type ev_s_sl_3 struct {
	B string
	A []string
}

func (ev_s_sl_3) Schema() string { return "ev_s_sl_3" }

type ev_s_sd_3 struct {
	B string
	A []time.Duration
}

func (ev_s_sd_3) Schema() string { return "ev_s_sd_3" }

type ev_s_ar_3 struct {
	B string
	A [2]string
}

func (ev_s_ar_3) Schema() string { return "ev_s_ar_3" }

type ev_s_m_3 struct {
	B string
	A map[string]string
}

func (ev_s_m_3) Schema() string { return "ev_s_m_3" }

type ev_s_mf_3 struct {
	B string
	A map[string]float64
}

func (ev_s_mf_3) Schema() string { return "ev_s_mf_3" }

type ev_i_s_3 struct {
	B int
	A string
}

func (ev_i_s_3) Schema() string { return "ev_i_s_3" }

type ev_i_i_3 struct {
	B int
	A int
}

func (ev_i_i_3) Schema() string { return "ev_i_i_3" }

type ev_i_f_3 struct {
	B int
	A float64
}

func (ev_i_f_3) Schema() string { return "ev_i_f_3" }

type ev_i_t_3 struct {
	B int
	A time.Time
}

func (ev_i_t_3) Schema() string { return "ev_i_t_3" }

type ev_i_d_3 struct {
	B int
	A time.Duration
}

func (ev_i_d_3) Schema() string { return "ev_i_d_3" }

type ev_i_ps_3 struct {
	B int
	A *string
}

func (ev_i_ps_3) Schema() string { return "ev_i_ps_3" }

type ev_i_pi_3 struct {
	B int
	A *int
}

func (ev_i_pi_3) Schema() string { return "ev_i_pi_3" }

type ev_i_pt_3 struct {
	B int
	A *time.Time
}

func (ev_i_pt_3) Schema() string { return "ev_i_pt_3" }

type ev_i_st_3 struct {
	B int
	A evIn
}

func (ev_i_st_3) Schema() string { return "ev_i_st_3" }

type ev_i_pst_3 struct {
	B int
	A *evIn
}

func (ev_i_pst_3) Schema() string { return "ev_i_pst_3" }

type ev_i_sl_3 struct {
	B int
	A []string
}

func (ev_i_sl_3) Schema() string { return "ev_i_sl_3" }

type ev_i_sd_3 struct {
	B int
	A []time.Duration
}

func (ev_i_sd_3) Schema() string { return "ev_i_sd_3" }

type ev_i_ar_3 struct {
	B int
	A [2]string
}

func (ev_i_ar_3) Schema() string { return "ev_i_ar_3" }

type ev_i_m_3 struct {
	B int
	A map[string]string
}

func (ev_i_m_3) Schema() string { return "ev_i_m_3" }

type ev_i_mf_3 struct {
	B int
	A map[string]float64
}

func (ev_i_mf_3) Schema() string { return "ev_i_mf_3" }

type ev_f_s_3 struct {
	B float64
	A string
}

func (ev_f_s_3) Schema() string { return "ev_f_s_3" }

type ev_f_i_3 struct {
	B float64
	A int
}

func (ev_f_i_3) Schema() string { return "ev_f_i_3" }

type ev_f_f_3 struct {
	B float64
	A float64
}

func (ev_f_f_3) Schema() string { return "ev_f_f_3" }

type ev_f_t_3 struct {
	B float64
	A time.Time
}

func (ev_f_t_3) Schema() string { return "ev_f_t_3" }

type ev_f_d_3 struct {
	B float64
	A time.Duration
}

func (ev_f_d_3) Schema() string { return "ev_f_d_3" }

type ev_f_ps_3 struct {
	B float64
	A *string
}

func (ev_f_ps_3) Schema() string { return "ev_f_ps_3" }

type ev_f_pi_3 struct {
	B float64
	A *int
}

func (ev_f_pi_3) Schema() string { return "ev_f_pi_3" }

type ev_f_pt_3 struct {
	B float64
	A *time.Time
}

func (ev_f_pt_3) Schema() string { return "ev_f_pt_3" }

type ev_f_st_3 struct {
	B float64
	A evIn
}

func (ev_f_st_3) Schema() string { return "ev_f_st_3" }

type ev_f_pst_3 struct {
	B float64
	A *evIn
}

func (ev_f_pst_3) Schema() string { return "ev_f_pst_3" }

type ev_f_sl_3 struct {
	B float64
	A []string
}

func (ev_f_sl_3) Schema() string { return "ev_f_sl_3" }

type ev_f_sd_3 struct {
	B float64
	A []time.Duration
}

func (ev_f_sd_3) Schema() string { return "ev_f_sd_3" }

type ev_f_ar_3 struct {
	B float64
	A [2]string
}

func (ev_f_ar_3) Schema() string { return "ev_f_ar_3" }

type ev_f_m_3 struct {
	B float64
	A map[string]string
}

func (ev_f_m_3) Schema() string { return "ev_f_m_3" }

type ev_f_mf_3 struct {
	B float64
	A map[string]float64
}

func (ev_f_mf_3) Schema() string { return "ev_f_mf_3" }

type ev_t_s_3 struct {
	B time.Time
	A string
}

func (ev_t_s_3) Schema() string { return "ev_t_s_3" }

type ev_t_i_3 struct {
	B time.Time
	A int
}

func (ev_t_i_3) Schema() string { return "ev_t_i_3" }

type ev_t_f_3 struct {
	B time.Time
	A float64
}

func (ev_t_f_3) Schema() string { return "ev_t_f_3" }

type ev_t_t_3 struct {
	B time.Time
	A time.Time
}

func (ev_t_t_3) Schema() string { return "ev_t_t_3" }

type ev_t_d_3 struct {
	B time.Time
	A time.Duration
}

func (ev_t_d_3) Schema() string { return "ev_t_d_3" }

type ev_t_ps_3 struct {
	B time.Time
	A *string
}

func (ev_t_ps_3) Schema() string { return "ev_t_ps_3" }

type ev_t_pi_3 struct {
	B time.Time
	A *int
}

func (ev_t_pi_3) Schema() string { return "ev_t_pi_3" }

type ev_t_pt_3 struct {
	B time.Time
	A *time.Time
}

func (ev_t_pt_3) Schema() string { return "ev_t_pt_3" }

type ev_t_st_3 struct {
	B time.Time
	A evIn
}

func (ev_t_st_3) Schema() string { return "ev_t_st_3" }

type ev_t_pst_3 struct {
	B time.Time
	A *evIn
}

func (ev_t_pst_3) Schema() string { return "ev_t_pst_3" }

type ev_t_sl_3 struct {
	B time.Time
	A []string
}

func (ev_t_sl_3) Schema() string { return "ev_t_sl_3" }

type ev_t_sd_3 struct {
	B time.Time
	A []time.Duration
}

func (ev_t_sd_3) Schema() string { return "ev_t_sd_3" }

type ev_t_ar_3 struct {
	B time.Time
	A [2]string
}

func (ev_t_ar_3) Schema() string { return "ev_t_ar_3" }

type ev_t_m_3 struct {
	B time.Time
	A map[string]string
}

func (ev_t_m_3) Schema() string { return "ev_t_m_3" }

type ev_t_mf_3 struct {
	B time.Time
	A map[string]float64
}

func (ev_t_mf_3) Schema() string { return "ev_t_mf_3" }

type ev_d_s_3 struct {
	B time.Duration
	A string
}

func (ev_d_s_3) Schema() string { return "ev_d_s_3" }

type ev_d_i_3 struct {
	B time.Duration
	A int
}

func (ev_d_i_3) Schema() string { return "ev_d_i_3" }

type ev_d_f_3 struct {
	B time.Duration
	A float64
}

func (ev_d_f_3) Schema() string { return "ev_d_f_3" }

type ev_d_t_3 struct {
	B time.Duration
	A time.Time
}

func (ev_d_t_3) Schema() string { return "ev_d_t_3" }

type ev_d_d_3 struct {
	B time.Duration
	A time.Duration
}

func (ev_d_d_3) Schema() string { return "ev_d_d_3" }

type ev_d_ps_3 struct {
	B time.Duration
	A *string
}

func (ev_d_ps_3) Schema() string { return "ev_d_ps_3" }

type ev_d_pi_3 struct {
	B time.Duration
	A *int
}

func (ev_d_pi_3) Schema() string { return "ev_d_pi_3" }

type ev_d_pt_3 struct {
	B time.Duration
	A *time.Time
}

func (ev_d_pt_3) Schema() string { return "ev_d_pt_3" }

type ev_d_st_3 struct {
	B time.Duration
	A evIn
}

func (ev_d_st_3) Schema() string { return "ev_d_st_3" }

type ev_d_pst_3 struct {
	B time.Duration
	A *evIn
}

func (ev_d_pst_3) Schema() string { return "ev_d_pst_3" }

type ev_d_sl_3 struct {
	B time.Duration
	A []string
}

func (ev_d_sl_3) Schema() string { return "ev_d_sl_3" }

type ev_d_sd_3 struct {
	B time.Duration
	A []time.Duration
}

func (ev_d_sd_3) Schema() string { return "ev_d_sd_3" }

type ev_d_ar_3 struct {
	B time.Duration
	A [2]string
}

func (ev_d_ar_3) Schema() string { return "ev_d_ar_3" }

type ev_d_m_3 struct {
	B time.Duration
	A map[string]string
}

func (ev_d_m_3) Schema() string { return "ev_d_m_3" }

type ev_d_mf_3 struct {
	B time.Duration
	A map[string]float64
}

func (ev_d_mf_3) Schema() string { return "ev_d_mf_3" }

type ev_ps_s_3 struct {
	B *string
	A string
}

func (ev_ps_s_3) Schema() string { return "ev_ps_s_3" }

type ev_ps_i_3 struct {
	B *string
	A int
}

func (ev_ps_i_3) Schema() string { return "ev_ps_i_3" }

type ev_ps_f_3 struct {
	B *string
	A float64
}

func (ev_ps_f_3) Schema() string { return "ev_ps_f_3" }

type ev_ps_t_3 struct {
	B *string
	A time.Time
}

func (ev_ps_t_3) Schema() string { return "ev_ps_t_3" }

type ev_ps_d_3 struct {
	B *string
	A time.Duration
}

func (ev_ps_d_3) Schema() string { return "ev_ps_d_3" }

type ev_ps_ps_3 struct {
	B *string
	A *string
}

func (ev_ps_ps_3) Schema() string { return "ev_ps_ps_3" }

type ev_ps_pi_3 struct {
	B *string
	A *int
}

func (ev_ps_pi_3) Schema() string { return "ev_ps_pi_3" }

type ev_ps_pt_3 struct {
	B *string
	A *time.Time
}

func (ev_ps_pt_3) Schema() string { return "ev_ps_pt_3" }

type ev_ps_st_3 struct {
	B *string
	A evIn
}

func (ev_ps_st_3) Schema() string { return "ev_ps_st_3" }

type ev_ps_pst_3 struct {
	B *string
	A *evIn
}

func (ev_ps_pst_3) Schema() string { return "ev_ps_pst_3" }

type ev_ps_sl_3 struct {
	B *string
	A []string
}

func (ev_ps_sl_3) Schema() string { return "ev_ps_sl_3" }

type ev_ps_sd_3 struct {
	B *string
	A []time.Duration
}

func (ev_ps_sd_3) Schema() string { return "ev_ps_sd_3" }

type ev_ps_ar_3 struct {
	B *string
	A [2]string
}

func (ev_ps_ar_3) Schema() string { return "ev_ps_ar_3" }

type ev_ps_m_3 struct {
	B *string
	A map[string]string
}

func (ev_ps_m_3) Schema() string { return "ev_ps_m_3" }

type ev_ps_mf_3 struct {
	B *string
	A map[string]float64
}

func (ev_ps_mf_3) Schema() string { return "ev_ps_mf_3" }

type ev_pi_s_3 struct {
	B *int
	A string
}

func (ev_pi_s_3) Schema() string { return "ev_pi_s_3" }

type ev_pi_i_3 struct {
	B *int
	A int
}

func (ev_pi_i_3) Schema() string { return "ev_pi_i_3" }

type ev_pi_f_3 struct {
	B *int
	A float64
}

func (ev_pi_f_3) Schema() string { return "ev_pi_f_3" }

type ev_pi_t_3 struct {
	B *int
	A time.Time
}

func (ev_pi_t_3) Schema() string { return "ev_pi_t_3" }

type ev_pi_d_3 struct {
	B *int
	A time.Duration
}

func (ev_pi_d_3) Schema() string { return "ev_pi_d_3" }

type ev_pi_ps_3 struct {
	B *int
	A *string
}

func (ev_pi_ps_3) Schema() string { return "ev_pi_ps_3" }

type ev_pi_pi_3 struct {
	B *int
	A *int
}

func (ev_pi_pi_3) Schema() string { return "ev_pi_pi_3" }

type ev_pi_pt_3 struct {
	B *int
	A *time.Time
}

func (ev_pi_pt_3) Schema() string { return "ev_pi_pt_3" }

type ev_pi_st_3 struct {
	B *int
	A evIn
}

func (ev_pi_st_3) Schema() string { return "ev_pi_st_3" }

type ev_pi_pst_3 struct {
	B *int
	A *evIn
}

func (ev_pi_pst_3) Schema() string { return "ev_pi_pst_3" }

type ev_pi_sl_3 struct {
	B *int
	A []string
}

func (ev_pi_sl_3) Schema() string { return "ev_pi_sl_3" }

type ev_pi_sd_3 struct {
	B *int
	A []time.Duration
}

func (ev_pi_sd_3) Schema() string { return "ev_pi_sd_3" }

type ev_pi_ar_3 struct {
	B *int
	A [2]string
}

func (ev_pi_ar_3) Schema() string { return "ev_pi_ar_3" }

type ev_pi_m_3 struct {
	B *int
	A map[string]string
}

func (ev_pi_m_3) Schema() string { return "ev_pi_m_3" }

type ev_pi_mf_3 struct {
	B *int
	A map[string]float64
}

func (ev_pi_mf_3) Schema() string { return "ev_pi_mf_3" }

type ev_pt_s_3 struct {
	B *time.Time
	A string
}

func (ev_pt_s_3) Schema() string { return "ev_pt_s_3" }

type ev_pt_i_3 struct {
	B *time.Time
	A int
}

func (ev_pt_i_3) Schema() string { return "ev_pt_i_3" }

type ev_pt_f_3 struct {
	B *time.Time
	A float64
}

func (ev_pt_f_3) Schema() string { return "ev_pt_f_3" }

type ev_pt_t_3 struct {
	B *time.Time
	A time.Time
}

func (ev_pt_t_3) Schema() string { return "ev_pt_t_3" }

type ev_pt_d_3 struct {
	B *time.Time
	A time.Duration
}

func (ev_pt_d_3) Schema() string { return "ev_pt_d_3" }

type ev_pt_ps_3 struct {
	B *time.Time
	A *string
}

func (ev_pt_ps_3) Schema() string { return "ev_pt_ps_3" }

type ev_pt_pi_3 struct {
	B *time.Time
	A *int
}

func (ev_pt_pi_3) Schema() string { return "ev_pt_pi_3" }

type ev_pt_pt_3 struct {
	B *time.Time
	A *time.Time
}

func (ev_pt_pt_3) Schema() string { return "ev_pt_pt_3" }

type ev_pt_st_3 struct {
	B *time.Time
	A evIn
}

func (ev_pt_st_3) Schema() string { return "ev_pt_st_3" }

type ev_pt_pst_3 struct {
	B *time.Time
	A *evIn
}

func (ev_pt_pst_3) Schema() string { return "ev_pt_pst_3" }

type ev_pt_sl_3 struct {
	B *time.Time
	A []string
}

func (ev_pt_sl_3) Schema() string { return "ev_pt_sl_3" }

type ev_pt_sd_3 struct {
	B *time.Time
	A []time.Duration
}

func (ev_pt_sd_3) Schema() string { return "ev_pt_sd_3" }

type ev_pt_ar_3 struct {
	B *time.Time
	A [2]string
}

func (ev_pt_ar_3) Schema() string { return "ev_pt_ar_3" }

type ev_pt_m_3 struct {
	B *time.Time
	A map[string]string
}

func (ev_pt_m_3) Schema() string { return "ev_pt_m_3" }

type ev_pt_mf_3 struct {
	B *time.Time
	A map[string]float64
}

func (ev_pt_mf_3) Schema() string { return "ev_pt_mf_3" }

type ev_st_s_3 struct {
	B evIn
	A string
}

func (ev_st_s_3) Schema() string { return "ev_st_s_3" }

type ev_st_i_3 struct {
	B evIn
	A int
}

func (ev_st_i_3) Schema() string { return "ev_st_i_3" }

type ev_st_f_3 struct {
	B evIn
	A float64
}

func (ev_st_f_3) Schema() string { return "ev_st_f_3" }

type ev_st_t_3 struct {
	B evIn
	A time.Time
}

func (ev_st_t_3) Schema() string { return "ev_st_t_3" }

type ev_st_d_3 struct {
	B evIn
	A time.Duration
}

func (ev_st_d_3) Schema() string { return "ev_st_d_3" }

type ev_st_ps_3 struct {
	B evIn
	A *string
}

func (ev_st_ps_3) Schema() string { return "ev_st_ps_3" }

type ev_st_pi_3 struct {
	B evIn
	A *int
}

func (ev_st_pi_3) Schema() string { return "ev_st_pi_3" }

type ev_st_pt_3 struct {
	B evIn
	A *time.Time
}

func (ev_st_pt_3) Schema() string { return "ev_st_pt_3" }

type ev_st_st_3 struct {
	B evIn
	A evIn
}

func (ev_st_st_3) Schema() string { return "ev_st_st_3" }

type ev_st_pst_3 struct {
	B evIn
	A *evIn
}

func (ev_st_pst_3) Schema() string { return "ev_st_pst_3" }

type ev_st_sl_3 struct {
	B evIn
	A []string
}

func (ev_st_sl_3) Schema() string { return "ev_st_sl_3" }

type ev_st_sd_3 struct {
	B evIn
	A []time.Duration
}

func (ev_st_sd_3) Schema() string { return "ev_st_sd_3" }

type ev_st_ar_3 struct {
	B evIn
	A [2]string
}

func (ev_st_ar_3) Schema() string { return "ev_st_ar_3" }

type ev_st_m_3 struct {
	B evIn
	A map[string]string
}

func (ev_st_m_3) Schema() string { return "ev_st_m_3" }

type ev_st_mf_3 struct {
	B evIn
	A map[string]float64
}

func (ev_st_mf_3) Schema() string { return "ev_st_mf_3" }

type ev_pst_s_3 struct {
	B *evIn
	A string
}

func (ev_pst_s_3) Schema() string { return "ev_pst_s_3" }

type ev_pst_i_3 struct {
	B *evIn
	A int
}

func (ev_pst_i_3) Schema() string { return "ev_pst_i_3" }

type ev_pst_f_3 struct {
	B *evIn
	A float64
}

func (ev_pst_f_3) Schema() string { return "ev_pst_f_3" }

type ev_pst_t_3 struct {
	B *evIn
	A time.Time
}

func (ev_pst_t_3) Schema() string { return "ev_pst_t_3" }

type ev_pst_d_3 struct {
	B *evIn
	A time.Duration
}

func (ev_pst_d_3) Schema() string { return "ev_pst_d_3" }

type ev_pst_ps_3 struct {
	B *evIn
	A *string
}

func (ev_pst_ps_3) Schema() string { return "ev_pst_ps_3" }

type ev_pst_pi_3 struct {
	B *evIn
	A *int
}

func (ev_pst_pi_3) Schema() string { return "ev_pst_pi_3" }

type ev_pst_pt_3 struct {
	B *evIn
	A *time.Time
}

func (ev_pst_pt_3) Schema() string { return "ev_pst_pt_3" }

type ev_pst_st_3 struct {
	B *evIn
	A evIn
}

func (ev_pst_st_3) Schema() string { return "ev_pst_st_3" }

type ev_pst_pst_3 struct {
	B *evIn
	A *evIn
}

func (ev_pst_pst_3) Schema() string { return "ev_pst_pst_3" }

type ev_pst_sl_3 struct {
	B *evIn
	A []string
}

func (ev_pst_sl_3) Schema() string { return "ev_pst_sl_3" }

type ev_pst_sd_3 struct {
	B *evIn
	A []time.Duration
}

func (ev_pst_sd_3) Schema() string { return "ev_pst_sd_3" }

type ev_pst_ar_3 struct {
	B *evIn
	A [2]string
}

func (ev_pst_ar_3) Schema() string { return "ev_pst_ar_3" }

type ev_pst_m_3 struct {
	B *evIn
	A map[string]string
}

func (ev_pst_m_3) Schema() string { return "ev_pst_m_3" }

type ev_pst_mf_3 struct {
	B *evIn
	A map[string]float64
}

func (ev_pst_mf_3) Schema() string { return "ev_pst_mf_3" }

type ev_sl_s_3 struct {
	B []string
	A string
}

func (ev_sl_s_3) Schema() string { return "ev_sl_s_3" }

type ev_sl_i_3 struct {
	B []string
	A int
}

func (ev_sl_i_3) Schema() string { return "ev_sl_i_3" }

type ev_sl_f_3 struct {
	B []string
	A float64
}

func (ev_sl_f_3) Schema() string { return "ev_sl_f_3" }

type ev_sl_t_3 struct {
	B []string
	A time.Time
}

func (ev_sl_t_3) Schema() string { return "ev_sl_t_3" }

type ev_sl_d_3 struct {
	B []string
	A time.Duration
}

func (ev_sl_d_3) Schema() string { return "ev_sl_d_3" }

type ev_sl_ps_3 struct {
	B []string
	A *string
}

func (ev_sl_ps_3) Schema() string { return "ev_sl_ps_3" }

type ev_sl_pi_3 struct {
	B []string
	A *int
}

func (ev_sl_pi_3) Schema() string { return "ev_sl_pi_3" }

type ev_sl_pt_3 struct {
	B []string
	A *time.Time
}

func (ev_sl_pt_3) Schema() string { return "ev_sl_pt_3" }

type ev_sl_st_3 struct {
	B []string
	A evIn
}

func (ev_sl_st_3) Schema() string { return "ev_sl_st_3" }

type ev_sl_pst_3 struct {
	B []string
	A *evIn
}

func (ev_sl_pst_3) Schema() string { return "ev_sl_pst_3" }

type ev_sl_sl_3 struct {
	B []string
	A []string
}

func (ev_sl_sl_3) Schema() string { return "ev_sl_sl_3" }

type ev_sl_sd_3 struct {
	B []string
	A []time.Duration
}

func (ev_sl_sd_3) Schema() string { return "ev_sl_sd_3" }

type ev_sl_ar_3 struct {
	B []string
	A [2]string
}

func (ev_sl_ar_3) Schema() string { return "ev_sl_ar_3" }

type ev_sl_m_3 struct {
	B []string
	A map[string]string
}

func (ev_sl_m_3) Schema() string { return "ev_sl_m_3" }

type ev_sl_mf_3 struct {
	B []string
	A map[string]float64
}

func (ev_sl_mf_3) Schema() string { return "ev_sl_mf_3" }

type ev_sd_s_3 struct {
	B []time.Duration
	A string
}

func (ev_sd_s_3) Schema() string { return "ev_sd_s_3" }

type ev_sd_i_3 struct {
	B []time.Duration
	A int
}

func (ev_sd_i_3) Schema() string { return "ev_sd_i_3" }

type ev_sd_f_3 struct {
	B []time.Duration
	A float64
}

func (ev_sd_f_3) Schema() string { return "ev_sd_f_3" }

type ev_sd_t_3 struct {
	B []time.Duration
	A time.Time
}

func (ev_sd_t_3) Schema() string { return "ev_sd_t_3" }

type ev_sd_d_3 struct {
	B []time.Duration
	A time.Duration
}

func (ev_sd_d_3) Schema() string { return "ev_sd_d_3" }

type ev_sd_ps_3 struct {
	B []time.Duration
	A *string
}

func (ev_sd_ps_3) Schema() string { return "ev_sd_ps_3" }

type ev_sd_pi_3 struct {
	B []time.Duration
	A *int
}

func (ev_sd_pi_3) Schema() string { return "ev_sd_pi_3" }

type ev_sd_pt_3 struct {
	B []time.Duration
	A *time.Time
}

func (ev_sd_pt_3) Schema() string { return "ev_sd_pt_3" }

type ev_sd_st_3 struct {
	B []time.Duration
	A evIn
}

func (ev_sd_st_3) Schema() string { return "ev_sd_st_3" }

type ev_sd_pst_3 struct {
	B []time.Duration
	A *evIn
}

func (ev_sd_pst_3) Schema() string { return "ev_sd_pst_3" }

type ev_sd_sl_3 struct {
	B []time.Duration
	A []string
}

func (ev_sd_sl_3) Schema() string { return "ev_sd_sl_3" }

type ev_sd_sd_3 struct {
	B []time.Duration
	A []time.Duration
}

func (ev_sd_sd_3) Schema() string { return "ev_sd_sd_3" }

type ev_sd_ar_3 struct {
	B []time.Duration
	A [2]string
}

func (ev_sd_ar_3) Schema() string { return "ev_sd_ar_3" }

type ev_sd_m_3 struct {
	B []time.Duration
	A map[string]string
}

func (ev_sd_m_3) Schema() string { return "ev_sd_m_3" }

type ev_sd_mf_3 struct {
	B []time.Duration
	A map[string]float64
}

func (ev_sd_mf_3) Schema() string { return "ev_sd_mf_3" }

type ev_ar_s_3 struct {
	B [2]string
	A string
}

func (ev_ar_s_3) Schema() string { return "ev_ar_s_3" }

type ev_ar_i_3 struct {
	B [2]string
	A int
}

func (ev_ar_i_3) Schema() string { return "ev_ar_i_3" }

type ev_ar_f_3 struct {
	B [2]string
	A float64
}

func (ev_ar_f_3) Schema() string { return "ev_ar_f_3" }

type ev_ar_t_3 struct {
	B [2]string
	A time.Time
}

func (ev_ar_t_3) Schema() string { return "ev_ar_t_3" }

type ev_ar_d_3 struct {
	B [2]string
	A time.Duration
}

func (ev_ar_d_3) Schema() string { return "ev_ar_d_3" }

type ev_ar_ps_3 struct {
	B [2]string
	A *string
}

func (ev_ar_ps_3) Schema() string { return "ev_ar_ps_3" }

type ev_ar_pi_3 struct {
	B [2]string
	A *int
}

func (ev_ar_pi_3) Schema() string { return "ev_ar_pi_3" }

type ev_ar_pt_3 struct {
	B [2]string
	A *time.Time
}

func (ev_ar_pt_3) Schema() string { return "ev_ar_pt_3" }

type ev_ar_st_3 struct {
	B [2]string
	A evIn
}

func (ev_ar_st_3) Schema() string { return "ev_ar_st_3" }

type ev_ar_pst_3 struct {
	B [2]string
	A *evIn
}

func (ev_ar_pst_3) Schema() string { return "ev_ar_pst_3" }

type ev_ar_sl_3 struct {
	B [2]string
	A []string
}

func (ev_ar_sl_3) Schema() string { return "ev_ar_sl_3" }

type ev_ar_sd_3 struct {
	B [2]string
	A []time.Duration
}

func (ev_ar_sd_3) Schema() string { return "ev_ar_sd_3" }

type ev_ar_ar_3 struct {
	B [2]string
	A [2]string
}

func (ev_ar_ar_3) Schema() string { return "ev_ar_ar_3" }

type ev_ar_m_3 struct {
	B [2]string
	A map[string]string
}

func (ev_ar_m_3) Schema() string { return "ev_ar_m_3" }

type ev_ar_mf_3 struct {
	B [2]string
	A map[string]float64
}

func (ev_ar_mf_3) Schema() string { return "ev_ar_mf_3" }

type ev_m_s_3 struct {
	B map[string]string
	A string
}

func (ev_m_s_3) Schema() string { return "ev_m_s_3" }

type ev_m_i_3 struct {
	B map[string]string
	A int
}

func (ev_m_i_3) Schema() string { return "ev_m_i_3" }

type ev_m_f_3 struct {
	B map[string]string
	A float64
}

func (ev_m_f_3) Schema() string { return "ev_m_f_3" }

type ev_m_t_3 struct {
	B map[string]string
	A time.Time
}

func (ev_m_t_3) Schema() string { return "ev_m_t_3" }

type ev_m_d_3 struct {
	B map[string]string
	A time.Duration
}

func (ev_m_d_3) Schema() string { return "ev_m_d_3" }

type ev_m_ps_3 struct {
	B map[string]string
	A *string
}

func (ev_m_ps_3) Schema() string { return "ev_m_ps_3" }

type ev_m_pi_3 struct {
	B map[string]string
	A *int
}

func (ev_m_pi_3) Schema() string { return "ev_m_pi_3" }

type ev_m_pt_3 struct {
	B map[string]string
	A *time.Time
}

func (ev_m_pt_3) Schema() string { return "ev_m_pt_3" }

type ev_m_st_3 struct {
	B map[string]string
	A evIn
}

func (ev_m_st_3) Schema() string { return "ev_m_st_3" }

type ev_m_pst_3 struct {
	B map[string]string
	A *evIn
}

func (ev_m_pst_3) Schema() string { return "ev_m_pst_3" }

type ev_m_sl_3 struct {
	B map[string]string
	A []string
}

func (ev_m_sl_3) Schema() string { return "ev_m_sl_3" }

type ev_m_sd_3 struct {
	B map[string]string
	A []time.Duration
}

func (ev_m_sd_3) Schema() string { return "ev_m_sd_3" }

type ev_m_ar_3 struct {
	B map[string]string
	A [2]string
}

func (ev_m_ar_3) Schema() string { return "ev_m_ar_3" }

type ev_m_m_3 struct {
	B map[string]string
	A map[string]string
}

func (ev_m_m_3) Schema() string { return "ev_m_m_3" }

type ev_m_mf_3 struct {
	B map[string]string
	A map[string]float64
}

func (ev_m_mf_3) Schema() string { return "ev_m_mf_3" }

type ev_mf_s_3 struct {
	B map[string]float64
	A string
}

func (ev_mf_s_3) Schema() string { return "ev_mf_s_3" }

type ev_mf_i_3 struct {
	B map[string]float64
	A int
}

func (ev_mf_i_3) Schema() string { return "ev_mf_i_3" }

type ev_mf_f_3 struct {
	B map[string]float64
	A float64
}

func (ev_mf_f_3) Schema() string { return "ev_mf_f_3" }

type ev_mf_t_3 struct {
	B map[string]float64
	A time.Time
}

func (ev_mf_t_3) Schema() string { return "ev_mf_t_3" }

type ev_mf_d_3 struct {
	B map[string]float64
	A time.Duration
}

func (ev_mf_d_3) Schema() string { return "ev_mf_d_3" }

type ev_mf_ps_3 struct {
	B map[string]float64
	A *string
}

func (ev_mf_ps_3) Schema() string { return "ev_mf_ps_3" }

type ev_mf_pi_3 struct {
	B map[string]float64
	A *int
}

func (ev_mf_pi_3) Schema() string { return "ev_mf_pi_3" }

type ev_mf_pt_3 struct {
	B map[string]float64
	A *time.Time
}

func (ev_mf_pt_3) Schema() string { return "ev_mf_pt_3" }

type ev_mf_st_3 struct {
	B map[string]float64
	A evIn
}

func (ev_mf_st_3) Schema() string { return "ev_mf_st_3" }

type ev_mf_pst_3 struct {
	B map[string]float64
	A *evIn
}

func (ev_mf_pst_3) Schema() string { return "ev_mf_pst_3" }

type ev_mf_sl_3 struct {
	B map[string]float64
	A []string
}

func (ev_mf_sl_3) Schema() string { return "ev_mf_sl_3" }

type ev_mf_sd_3 struct {
	B map[string]float64
	A []time.Duration
}

func (ev_mf_sd_3) Schema() string { return "ev_mf_sd_3" }

type ev_mf_ar_3 struct {
	B map[string]float64
	A [2]string
}

func (ev_mf_ar_3) Schema() string { return "ev_mf_ar_3" }

type ev_mf_m_3 struct {
	B map[string]float64
	A map[string]string
}

func (ev_mf_m_3) Schema() string { return "ev_mf_m_3" }

type ev_mf_mf_3 struct {
	B map[string]float64
	A map[string]float64
}

func (ev_mf_mf_3) Schema() string { return "ev_mf_mf_3" }

type ev_s_s_4 struct {
	F_A_B string `trace:"A B"`
	A     string
}

func (ev_s_s_4) Schema() string { return "ev_s_s_4" }

type ev_s_i_4 struct {
	F_A_B string `trace:"A B"`
	A     int
}

func (ev_s_i_4) Schema() string { return "ev_s_i_4" }

type ev_s_f_4 struct {
	F_A_B string `trace:"A B"`
	A     float64
}

func (ev_s_f_4) Schema() string { return "ev_s_f_4" }

type ev_s_t_4 struct {
	F_A_B string `trace:"A B"`
	A     time.Time
}

func (ev_s_t_4) Schema() string { return "ev_s_t_4" }

type ev_s_d_4 struct {
	F_A_B string `trace:"A B"`
	A     time.Duration
}

func (ev_s_d_4) Schema() string { return "ev_s_d_4" }

type ev_s_ps_4 struct {
	F_A_B string `trace:"A B"`
	A     *string
}

func (ev_s_ps_4) Schema() string { return "ev_s_ps_4" }

type ev_s_pi_4 struct {
	F_A_B string `trace:"A B"`
	A     *int
}

func (ev_s_pi_4) Schema() string { return "ev_s_pi_4" }

type ev_s_pt_4 struct {
	F_A_B string `trace:"A B"`
	A     *time.Time
}

func (ev_s_pt_4) Schema() string { return "ev_s_pt_4" }

type ev_s_st_4 struct {
	F_A_B string `trace:"A B"`
	A     evIn
}

func (ev_s_st_4) Schema() string { return "ev_s_st_4" }

type ev_s_pst_4 struct {
	F_A_B string `trace:"A B"`
	A     *evIn
}

func (ev_s_pst_4) Schema() string { return "ev_s_pst_4" }

type ev_s_sl_4 struct {
	F_A_B string `trace:"A B"`
	A     []string
}

func (ev_s_sl_4) Schema() string { return "ev_s_sl_4" }

type ev_s_sd_4 struct {
	F_A_B string `trace:"A B"`
	A     []time.Duration
}

func (ev_s_sd_4) Schema() string { return "ev_s_sd_4" }

type ev_s_ar_4 struct {
	F_A_B string `trace:"A B"`
	A     [2]string
}

func (ev_s_ar_4) Schema() string { return "ev_s_ar_4" }

type ev_s_m_4 struct {
	F_A_B string `trace:"A B"`
	A     map[string]string
}

func (ev_s_m_4) Schema() string { return "ev_s_m_4" }

type ev_s_mf_4 struct {
	F_A_B string `trace:"A B"`
	A     map[string]float64
}

func (ev_s_mf_4) Schema() string { return "ev_s_mf_4" }

type ev_i_s_4 struct {
	F_A_B int `trace:"A B"`
	A     string
}

func (ev_i_s_4) Schema() string { return "ev_i_s_4" }

type ev_i_i_4 struct {
	F_A_B int `trace:"A B"`
	A     int
}

func (ev_i_i_4) Schema() string { return "ev_i_i_4" }

type ev_i_f_4 struct {
	F_A_B int `trace:"A B"`
	A     float64
}

func (ev_i_f_4) Schema() string { return "ev_i_f_4" }

type ev_i_t_4 struct {
	F_A_B int `trace:"A B"`
	A     time.Time
}

func (ev_i_t_4) Schema() string { return "ev_i_t_4" }

type ev_i_d_4 struct {
	F_A_B int `trace:"A B"`
	A     time.Duration
}

func (ev_i_d_4) Schema() string { return "ev_i_d_4" }

type ev_i_ps_4 struct {
	F_A_B int `trace:"A B"`
	A     *string
}

func (ev_i_ps_4) Schema() string { return "ev_i_ps_4" }

type ev_i_pi_4 struct {
	F_A_B int `trace:"A B"`
	A     *int
}

func (ev_i_pi_4) Schema() string { return "ev_i_pi_4" }

type ev_i_pt_4 struct {
	F_A_B int `trace:"A B"`
	A     *time.Time
}

func (ev_i_pt_4) Schema() string { return "ev_i_pt_4" }

type ev_i_st_4 struct {
	F_A_B int `trace:"A B"`
	A     evIn
}

func (ev_i_st_4) Schema() string { return "ev_i_st_4" }

type ev_i_pst_4 struct {
	F_A_B int `trace:"A B"`
	A     *evIn
}

func (ev_i_pst_4) Schema() string { return "ev_i_pst_4" }

type ev_i_sl_4 struct {
	F_A_B int `trace:"A B"`
	A     []string
}

func (ev_i_sl_4) Schema() string { return "ev_i_sl_4" }

type ev_i_sd_4 struct {
	F_A_B int `trace:"A B"`
	A     []time.Duration
}

func (ev_i_sd_4) Schema() string { return "ev_i_sd_4" }

type ev_i_ar_4 struct {
	F_A_B int `trace:"A B"`
	A     [2]string
}

func (ev_i_ar_4) Schema() string { return "ev_i_ar_4" }

type ev_i_m_4 struct {
	F_A_B int `trace:"A B"`
	A     map[string]string
}

func (ev_i_m_4) Schema() string { return "ev_i_m_4" }

type ev_i_mf_4 struct {
	F_A_B int `trace:"A B"`
	A     map[string]float64
}

func (ev_i_mf_4) Schema() string { return "ev_i_mf_4" }

type ev_f_s_4 struct {
	F_A_B float64 `trace:"A B"`
	A     string
}

func (ev_f_s_4) Schema() string { return "ev_f_s_4" }

type ev_f_i_4 struct {
	F_A_B float64 `trace:"A B"`
	A     int
}

func (ev_f_i_4) Schema() string { return "ev_f_i_4" }

type ev_f_f_4 struct {
	F_A_B float64 `trace:"A B"`
	A     float64
}

func (ev_f_f_4) Schema() string { return "ev_f_f_4" }

type ev_f_t_4 struct {
	F_A_B float64 `trace:"A B"`
	A     time.Time
}

func (ev_f_t_4) Schema() string { return "ev_f_t_4" }

type ev_f_d_4 struct {
	F_A_B float64 `trace:"A B"`
	A     time.Duration
}

func (ev_f_d_4) Schema() string { return "ev_f_d_4" }

type ev_f_ps_4 struct {
	F_A_B float64 `trace:"A B"`
	A     *string
}

func (ev_f_ps_4) Schema() string { return "ev_f_ps_4" }

type ev_f_pi_4 struct {
	F_A_B float64 `trace:"A B"`
	A     *int
}

func (ev_f_pi_4) Schema() string { return "ev_f_pi_4" }

type ev_f_pt_4 struct {
	F_A_B float64 `trace:"A B"`
	A     *time.Time
}

func (ev_f_pt_4) Schema() string { return "ev_f_pt_4" }

type ev_f_st_4 struct {
	F_A_B float64 `trace:"A B"`
	A     evIn
}

func (ev_f_st_4) Schema() string { return "ev_f_st_4" }

type ev_f_pst_4 struct {
	F_A_B float64 `trace:"A B"`
	A     *evIn
}

func (ev_f_pst_4) Schema() string { return "ev_f_pst_4" }

type ev_f_sl_4 struct {
	F_A_B float64 `trace:"A B"`
	A     []string
}

func (ev_f_sl_4) Schema() string { return "ev_f_sl_4" }

type ev_f_sd_4 struct {
	F_A_B float64 `trace:"A B"`
	A     []time.Duration
}

func (ev_f_sd_4) Schema() string { return "ev_f_sd_4" }

type ev_f_ar_4 struct {
	F_A_B float64 `trace:"A B"`
	A     [2]string
}

func (ev_f_ar_4) Schema() string { return "ev_f_ar_4" }

type ev_f_m_4 struct {
	F_A_B float64 `trace:"A B"`
	A     map[string]string
}

func (ev_f_m_4) Schema() string { return "ev_f_m_4" }

type ev_f_mf_4 struct {
	F_A_B float64 `trace:"A B"`
	A     map[string]float64
}

func (ev_f_mf_4) Schema() string { return "ev_f_mf_4" }

type ev_t_s_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     string
}

func (ev_t_s_4) Schema() string { return "ev_t_s_4" }

type ev_t_i_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     int
}

func (ev_t_i_4) Schema() string { return "ev_t_i_4" }

type ev_t_f_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     float64
}

func (ev_t_f_4) Schema() string { return "ev_t_f_4" }

type ev_t_t_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     time.Time
}

func (ev_t_t_4) Schema() string { return "ev_t_t_4" }

type ev_t_d_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     time.Duration
}

func (ev_t_d_4) Schema() string { return "ev_t_d_4" }

type ev_t_ps_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     *string
}

func (ev_t_ps_4) Schema() string { return "ev_t_ps_4" }

type ev_t_pi_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     *int
}

func (ev_t_pi_4) Schema() string { return "ev_t_pi_4" }

type ev_t_pt_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     *time.Time
}

func (ev_t_pt_4) Schema() string { return "ev_t_pt_4" }

type ev_t_st_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     evIn
}

func (ev_t_st_4) Schema() string { return "ev_t_st_4" }

type ev_t_pst_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     *evIn
}

func (ev_t_pst_4) Schema() string { return "ev_t_pst_4" }

type ev_t_sl_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     []string
}

func (ev_t_sl_4) Schema() string { return "ev_t_sl_4" }

type ev_t_sd_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     []time.Duration
}

func (ev_t_sd_4) Schema() string { return "ev_t_sd_4" }

type ev_t_ar_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     [2]string
}

func (ev_t_ar_4) Schema() string { return "ev_t_ar_4" }

type ev_t_m_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     map[string]string
}

func (ev_t_m_4) Schema() string { return "ev_t_m_4" }

type ev_t_mf_4 struct {
	F_A_B time.Time `trace:"A B"`
	A     map[string]float64
}

func (ev_t_mf_4) Schema() string { return "ev_t_mf_4" }

type ev_d_s_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     string
}

func (ev_d_s_4) Schema() string { return "ev_d_s_4" }

type ev_d_i_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     int
}

func (ev_d_i_4) Schema() string { return "ev_d_i_4" }

type ev_d_f_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     float64
}

func (ev_d_f_4) Schema() string { return "ev_d_f_4" }

type ev_d_t_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     time.Time
}

func (ev_d_t_4) Schema() string { return "ev_d_t_4" }

type ev_d_d_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     time.Duration
}

func (ev_d_d_4) Schema() string { return "ev_d_d_4" }

type ev_d_ps_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     *string
}

func (ev_d_ps_4) Schema() string { return "ev_d_ps_4" }

type ev_d_pi_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     *int
}

func (ev_d_pi_4) Schema() string { return "ev_d_pi_4" }

type ev_d_pt_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     *time.Time
}

func (ev_d_pt_4) Schema() string { return "ev_d_pt_4" }

type ev_d_st_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     evIn
}

func (ev_d_st_4) Schema() string { return "ev_d_st_4" }

type ev_d_pst_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     *evIn
}

func (ev_d_pst_4) Schema() string { return "ev_d_pst_4" }

type ev_d_sl_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     []string
}

func (ev_d_sl_4) Schema() string { return "ev_d_sl_4" }

type ev_d_sd_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     []time.Duration
}

func (ev_d_sd_4) Schema() string { return "ev_d_sd_4" }

type ev_d_ar_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     [2]string
}

func (ev_d_ar_4) Schema() string { return "ev_d_ar_4" }

type ev_d_m_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     map[string]string
}

func (ev_d_m_4) Schema() string { return "ev_d_m_4" }

type ev_d_mf_4 struct {
	F_A_B time.Duration `trace:"A B"`
	A     map[string]float64
}

func (ev_d_mf_4) Schema() string { return "ev_d_mf_4" }

type ev_ps_s_4 struct {
	F_A_B *string `trace:"A B"`
	A     string
}

func (ev_ps_s_4) Schema() string { return "ev_ps_s_4" }

type ev_ps_i_4 struct {
	F_A_B *string `trace:"A B"`
	A     int
}

func (ev_ps_i_4) Schema() string { return "ev_ps_i_4" }

type ev_ps_f_4 struct {
	F_A_B *string `trace:"A B"`
	A     float64
}

func (ev_ps_f_4) Schema() string { return "ev_ps_f_4" }

type ev_ps_t_4 struct {
	F_A_B *string `trace:"A B"`
	A     time.Time
}

func (ev_ps_t_4) Schema() string { return "ev_ps_t_4" }

type ev_ps_d_4 struct {
	F_A_B *string `trace:"A B"`
	A     time.Duration
}

func (ev_ps_d_4) Schema() string { return "ev_ps_d_4" }

type ev_ps_ps_4 struct {
	F_A_B *string `trace:"A B"`
	A     *string
}

func (ev_ps_ps_4) Schema() string { return "ev_ps_ps_4" }

type ev_ps_pi_4 struct {
	F_A_B *string `trace:"A B"`
	A     *int
}

func (ev_ps_pi_4) Schema() string { return "ev_ps_pi_4" }

type ev_ps_pt_4 struct {
	F_A_B *string `trace:"A B"`
	A     *time.Time
}

func (ev_ps_pt_4) Schema() string { return "ev_ps_pt_4" }

type ev_ps_st_4 struct {
	F_A_B *string `trace:"A B"`
	A     evIn
}

func (ev_ps_st_4) Schema() string { return "ev_ps_st_4" }

type ev_ps_pst_4 struct {
	F_A_B *string `trace:"A B"`
	A     *evIn
}

func (ev_ps_pst_4) Schema() string { return "ev_ps_pst_4" }

type ev_ps_sl_4 struct {
	F_A_B *string `trace:"A B"`
	A     []string
}

func (ev_ps_sl_4) Schema() string { return "ev_ps_sl_4" }

type ev_ps_sd_4 struct {
	F_A_B *string `trace:"A B"`
	A     []time.Duration
}

func (ev_ps_sd_4) Schema() string { return "ev_ps_sd_4" }

type ev_ps_ar_4 struct {
	F_A_B *string `trace:"A B"`
	A     [2]string
}

func (ev_ps_ar_4) Schema() string { return "ev_ps_ar_4" }

type ev_ps_m_4 struct {
	F_A_B *string `trace:"A B"`
	A     map[string]string
}

func (ev_ps_m_4) Schema() string { return "ev_ps_m_4" }

type ev_ps_mf_4 struct {
	F_A_B *string `trace:"A B"`
	A     map[string]float64
}

func (ev_ps_mf_4) Schema() string { return "ev_ps_mf_4" }

type ev_pi_s_4 struct {
	F_A_B *int `trace:"A B"`
	A     string
}

func (ev_pi_s_4) Schema() string { return "ev_pi_s_4" }

type ev_pi_i_4 struct {
	F_A_B *int `trace:"A B"`
	A     int
}

func (ev_pi_i_4) Schema() string { return "ev_pi_i_4" }

type ev_pi_f_4 struct {
	F_A_B *int `trace:"A B"`
	A     float64
}

func (ev_pi_f_4) Schema() string { return "ev_pi_f_4" }

type ev_pi_t_4 struct {
	F_A_B *int `trace:"A B"`
	A     time.Time
}

func (ev_pi_t_4) Schema() string { return "ev_pi_t_4" }

type ev_pi_d_4 struct {
	F_A_B *int `trace:"A B"`
	A     time.Duration
}

func (ev_pi_d_4) Schema() string { return "ev_pi_d_4" }

type ev_pi_ps_4 struct {
	F_A_B *int `trace:"A B"`
	A     *string
}

func (ev_pi_ps_4) Schema() string { return "ev_pi_ps_4" }

type ev_pi_pi_4 struct {
	F_A_B *int `trace:"A B"`
	A     *int
}

func (ev_pi_pi_4) Schema() string { return "ev_pi_pi_4" }

type ev_pi_pt_4 struct {
	F_A_B *int `trace:"A B"`
	A     *time.Time
}

func (ev_pi_pt_4) Schema() string { return "ev_pi_pt_4" }

type ev_pi_st_4 struct {
	F_A_B *int `trace:"A B"`
	A     evIn
}

func (ev_pi_st_4) Schema() string { return "ev_pi_st_4" }

type ev_pi_pst_4 struct {
	F_A_B *int `trace:"A B"`
	A     *evIn
}

func (ev_pi_pst_4) Schema() string { return "ev_pi_pst_4" }

type ev_pi_sl_4 struct {
	F_A_B *int `trace:"A B"`
	A     []string
}

func (ev_pi_sl_4) Schema() string { return "ev_pi_sl_4" }

type ev_pi_sd_4 struct {
	F_A_B *int `trace:"A B"`
	A     []time.Duration
}

func (ev_pi_sd_4) Schema() string { return "ev_pi_sd_4" }

type ev_pi_ar_4 struct {
	F_A_B *int `trace:"A B"`
	A     [2]string
}

func (ev_pi_ar_4) Schema() string { return "ev_pi_ar_4" }

type ev_pi_m_4 struct {
	F_A_B *int `trace:"A B"`
	A     map[string]string
}

func (ev_pi_m_4) Schema() string { return "ev_pi_m_4" }

type ev_pi_mf_4 struct {
	F_A_B *int `trace:"A B"`
	A     map[string]float64
}

func (ev_pi_mf_4) Schema() string { return "ev_pi_mf_4" }

type ev_pt_s_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     string
}

func (ev_pt_s_4) Schema() string { return "ev_pt_s_4" }

type ev_pt_i_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     int
}

func (ev_pt_i_4) Schema() string { return "ev_pt_i_4" }

type ev_pt_f_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     float64
}

func (ev_pt_f_4) Schema() string { return "ev_pt_f_4" }

type ev_pt_t_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     time.Time
}

func (ev_pt_t_4) Schema() string { return "ev_pt_t_4" }

type ev_pt_d_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     time.Duration
}

func (ev_pt_d_4) Schema() string { return "ev_pt_d_4" }

type ev_pt_ps_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     *string
}

func (ev_pt_ps_4) Schema() string { return "ev_pt_ps_4" }

type ev_pt_pi_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     *int
}

func (ev_pt_pi_4) Schema() string { return "ev_pt_pi_4" }

type ev_pt_pt_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     *time.Time
}

func (ev_pt_pt_4) Schema() string { return "ev_pt_pt_4" }

type ev_pt_st_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     evIn
}

func (ev_pt_st_4) Schema() string { return "ev_pt_st_4" }

type ev_pt_pst_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     *evIn
}

func (ev_pt_pst_4) Schema() string { return "ev_pt_pst_4" }

type ev_pt_sl_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     []string
}

func (ev_pt_sl_4) Schema() string { return "ev_pt_sl_4" }

type ev_pt_sd_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     []time.Duration
}

func (ev_pt_sd_4) Schema() string { return "ev_pt_sd_4" }

type ev_pt_ar_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     [2]string
}

func (ev_pt_ar_4) Schema() string { return "ev_pt_ar_4" }

type ev_pt_m_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     map[string]string
}

func (ev_pt_m_4) Schema() string { return "ev_pt_m_4" }

type ev_pt_mf_4 struct {
	F_A_B *time.Time `trace:"A B"`
	A     map[string]float64
}

func (ev_pt_mf_4) Schema() string { return "ev_pt_mf_4" }

type ev_st_s_4 struct {
	F_A_B evIn `trace:"A B"`
	A     string
}

func (ev_st_s_4) Schema() string { return "ev_st_s_4" }

type ev_st_i_4 struct {
	F_A_B evIn `trace:"A B"`
	A     int
}

func (ev_st_i_4) Schema() string { return "ev_st_i_4" }

type ev_st_f_4 struct {
	F_A_B evIn `trace:"A B"`
	A     float64
}

func (ev_st_f_4) Schema() string { return "ev_st_f_4" }

type ev_st_t_4 struct {
	F_A_B evIn `trace:"A B"`
	A     time.Time
}

func (ev_st_t_4) Schema() string { return "ev_st_t_4" }

type ev_st_d_4 struct {
	F_A_B evIn `trace:"A B"`
	A     time.Duration
}

func (ev_st_d_4) Schema() string { return "ev_st_d_4" }

type ev_st_ps_4 struct {
	F_A_B evIn `trace:"A B"`
	A     *string
}

func (ev_st_ps_4) Schema() string { return "ev_st_ps_4" }

type ev_st_pi_4 struct {
	F_A_B evIn `trace:"A B"`
	A     *int
}

func (ev_st_pi_4) Schema() string { return "ev_st_pi_4" }

type ev_st_pt_4 struct {
	F_A_B evIn `trace:"A B"`
	A     *time.Time
}

func (ev_st_pt_4) Schema() string { return "ev_st_pt_4" }

type ev_st_st_4 struct {
	F_A_B evIn `trace:"A B"`
	A     evIn
}

func (ev_st_st_4) Schema() string { return "ev_st_st_4" }

type ev_st_pst_4 struct {
	F_A_B evIn `trace:"A B"`
	A     *evIn
}

func (ev_st_pst_4) Schema() string { return "ev_st_pst_4" }

type ev_st_sl_4 struct {
	F_A_B evIn `trace:"A B"`
	A     []string
}

func (ev_st_sl_4) Schema() string { return "ev_st_sl_4" }

type ev_st_sd_4 struct {
	F_A_B evIn `trace:"A B"`
	A     []time.Duration
}

func (ev_st_sd_4) Schema() string { return "ev_st_sd_4" }

type ev_st_ar_4 struct {
	F_A_B evIn `trace:"A B"`
	A     [2]string
}

func (ev_st_ar_4) Schema() string { return "ev_st_ar_4" }

type ev_st_m_4 struct {
	F_A_B evIn `trace:"A B"`
	A     map[string]string
}

func (ev_st_m_4) Schema() string { return "ev_st_m_4" }

type ev_st_mf_4 struct {
	F_A_B evIn `trace:"A B"`
	A     map[string]float64
}

func (ev_st_mf_4) Schema() string { return "ev_st_mf_4" }

type ev_pst_s_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     string
}

func (ev_pst_s_4) Schema() string { return "ev_pst_s_4" }

type ev_pst_i_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     int
}

func (ev_pst_i_4) Schema() string { return "ev_pst_i_4" }

type ev_pst_f_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     float64
}

func (ev_pst_f_4) Schema() string { return "ev_pst_f_4" }

type ev_pst_t_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     time.Time
}

func (ev_pst_t_4) Schema() string { return "ev_pst_t_4" }

type ev_pst_d_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     time.Duration
}

func (ev_pst_d_4) Schema() string { return "ev_pst_d_4" }

type ev_pst_ps_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     *string
}

func (ev_pst_ps_4) Schema() string { return "ev_pst_ps_4" }

type ev_pst_pi_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     *int
}

func (ev_pst_pi_4) Schema() string { return "ev_pst_pi_4" }

type ev_pst_pt_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     *time.Time
}

func (ev_pst_pt_4) Schema() string { return "ev_pst_pt_4" }

type ev_pst_st_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     evIn
}

func (ev_pst_st_4) Schema() string { return "ev_pst_st_4" }

type ev_pst_pst_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     *evIn
}

func (ev_pst_pst_4) Schema() string { return "ev_pst_pst_4" }

type ev_pst_sl_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     []string
}

func (ev_pst_sl_4) Schema() string { return "ev_pst_sl_4" }

type ev_pst_sd_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     []time.Duration
}

func (ev_pst_sd_4) Schema() string { return "ev_pst_sd_4" }

type ev_pst_ar_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     [2]string
}

func (ev_pst_ar_4) Schema() string { return "ev_pst_ar_4" }

type ev_pst_m_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     map[string]string
}

func (ev_pst_m_4) Schema() string { return "ev_pst_m_4" }

type ev_pst_mf_4 struct {
	F_A_B *evIn `trace:"A B"`
	A     map[string]float64
}

func (ev_pst_mf_4) Schema() string { return "ev_pst_mf_4" }

type ev_sl_s_4 struct {
	F_A_B []string `trace:"A B"`
	A     string
}

func (ev_sl_s_4) Schema() string { return "ev_sl_s_4" }

type ev_sl_i_4 struct {
	F_A_B []string `trace:"A B"`
	A     int
}

func (ev_sl_i_4) Schema() string { return "ev_sl_i_4" }

type ev_sl_f_4 struct {
	F_A_B []string `trace:"A B"`
	A     float64
}

func (ev_sl_f_4) Schema() string { return "ev_sl_f_4" }

type ev_sl_t_4 struct {
	F_A_B []string `trace:"A B"`
	A     time.Time
}

func (ev_sl_t_4) Schema() string { return "ev_sl_t_4" }

type ev_sl_d_4 struct {
	F_A_B []string `trace:"A B"`
	A     time.Duration
}

func (ev_sl_d_4) Schema() string { return "ev_sl_d_4" }

type ev_sl_ps_4 struct {
	F_A_B []string `trace:"A B"`
	A     *string
}

func (ev_sl_ps_4) Schema() string { return "ev_sl_ps_4" }

type ev_sl_pi_4 struct {
	F_A_B []string `trace:"A B"`
	A     *int
}

func (ev_sl_pi_4) Schema() string { return "ev_sl_pi_4" }

type ev_sl_pt_4 struct {
	F_A_B []string `trace:"A B"`
	A     *time.Time
}

func (ev_sl_pt_4) Schema() string { return "ev_sl_pt_4" }

type ev_sl_st_4 struct {
	F_A_B []string `trace:"A B"`
	A     evIn
}

func (ev_sl_st_4) Schema() string { return "ev_sl_st_4" }

type ev_sl_pst_4 struct {
	F_A_B []string `trace:"A B"`
	A     *evIn
}

func (ev_sl_pst_4) Schema() string { return "ev_sl_pst_4" }

type ev_sl_sl_4 struct {
	F_A_B []string `trace:"A B"`
	A     []string
}

func (ev_sl_sl_4) Schema() string { return "ev_sl_sl_4" }

type ev_sl_sd_4 struct {
	F_A_B []string `trace:"A B"`
	A     []time.Duration
}

func (ev_sl_sd_4) Schema() string { return "ev_sl_sd_4" }

type ev_sl_ar_4 struct {
	F_A_B []string `trace:"A B"`
	A     [2]string
}

func (ev_sl_ar_4) Schema() string { return "ev_sl_ar_4" }

type ev_sl_m_4 struct {
	F_A_B []string `trace:"A B"`
	A     map[string]string
}

func (ev_sl_m_4) Schema() string { return "ev_sl_m_4" }

type ev_sl_mf_4 struct {
	F_A_B []string `trace:"A B"`
	A     map[string]float64
}

func (ev_sl_mf_4) Schema() string { return "ev_sl_mf_4" }

type ev_sd_s_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     string
}

func (ev_sd_s_4) Schema() string { return "ev_sd_s_4" }

type ev_sd_i_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     int
}

func (ev_sd_i_4) Schema() string { return "ev_sd_i_4" }

type ev_sd_f_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     float64
}

func (ev_sd_f_4) Schema() string { return "ev_sd_f_4" }

type ev_sd_t_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     time.Time
}

func (ev_sd_t_4) Schema() string { return "ev_sd_t_4" }

type ev_sd_d_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     time.Duration
}

func (ev_sd_d_4) Schema() string { return "ev_sd_d_4" }

type ev_sd_ps_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     *string
}

func (ev_sd_ps_4) Schema() string { return "ev_sd_ps_4" }

type ev_sd_pi_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     *int
}

func (ev_sd_pi_4) Schema() string { return "ev_sd_pi_4" }

type ev_sd_pt_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     *time.Time
}

func (ev_sd_pt_4) Schema() string { return "ev_sd_pt_4" }

type ev_sd_st_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     evIn
}

func (ev_sd_st_4) Schema() string { return "ev_sd_st_4" }

type ev_sd_pst_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     *evIn
}

func (ev_sd_pst_4) Schema() string { return "ev_sd_pst_4" }

type ev_sd_sl_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     []string
}

func (ev_sd_sl_4) Schema() string { return "ev_sd_sl_4" }

type ev_sd_sd_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     []time.Duration
}

func (ev_sd_sd_4) Schema() string { return "ev_sd_sd_4" }

type ev_sd_ar_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     [2]string
}

func (ev_sd_ar_4) Schema() string { return "ev_sd_ar_4" }

type ev_sd_m_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     map[string]string
}

func (ev_sd_m_4) Schema() string { return "ev_sd_m_4" }

type ev_sd_mf_4 struct {
	F_A_B []time.Duration `trace:"A B"`
	A     map[string]float64
}

func (ev_sd_mf_4) Schema() string { return "ev_sd_mf_4" }

type ev_ar_s_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     string
}

func (ev_ar_s_4) Schema() string { return "ev_ar_s_4" }

type ev_ar_i_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     int
}

func (ev_ar_i_4) Schema() string { return "ev_ar_i_4" }

type ev_ar_f_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     float64
}

func (ev_ar_f_4) Schema() string { return "ev_ar_f_4" }

type ev_ar_t_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     time.Time
}

func (ev_ar_t_4) Schema() string { return "ev_ar_t_4" }

type ev_ar_d_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     time.Duration
}

func (ev_ar_d_4) Schema() string { return "ev_ar_d_4" }

type ev_ar_ps_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     *string
}

func (ev_ar_ps_4) Schema() string { return "ev_ar_ps_4" }

type ev_ar_pi_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     *int
}

func (ev_ar_pi_4) Schema() string { return "ev_ar_pi_4" }

type ev_ar_pt_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     *time.Time
}

func (ev_ar_pt_4) Schema() string { return "ev_ar_pt_4" }

type ev_ar_st_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     evIn
}

func (ev_ar_st_4) Schema() string { return "ev_ar_st_4" }

type ev_ar_pst_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     *evIn
}

func (ev_ar_pst_4) Schema() string { return "ev_ar_pst_4" }

type ev_ar_sl_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     []string
}

func (ev_ar_sl_4) Schema() string { return "ev_ar_sl_4" }

type ev_ar_sd_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     []time.Duration
}

func (ev_ar_sd_4) Schema() string { return "ev_ar_sd_4" }

type ev_ar_ar_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     [2]string
}

func (ev_ar_ar_4) Schema() string { return "ev_ar_ar_4" }

type ev_ar_m_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     map[string]string
}

func (ev_ar_m_4) Schema() string { return "ev_ar_m_4" }

type ev_ar_mf_4 struct {
	F_A_B [2]string `trace:"A B"`
	A     map[string]float64
}

func (ev_ar_mf_4) Schema() string { return "ev_ar_mf_4" }

type ev_m_s_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     string
}

func (ev_m_s_4) Schema() string { return "ev_m_s_4" }

type ev_m_i_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     int
}

func (ev_m_i_4) Schema() string { return "ev_m_i_4" }

type ev_m_f_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     float64
}

func (ev_m_f_4) Schema() string { return "ev_m_f_4" }

type ev_m_t_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     time.Time
}

func (ev_m_t_4) Schema() string { return "ev_m_t_4" }

type ev_m_d_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     time.Duration
}

func (ev_m_d_4) Schema() string { return "ev_m_d_4" }

type ev_m_ps_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     *string
}

func (ev_m_ps_4) Schema() string { return "ev_m_ps_4" }

type ev_m_pi_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     *int
}

func (ev_m_pi_4) Schema() string { return "ev_m_pi_4" }

type ev_m_pt_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     *time.Time
}

func (ev_m_pt_4) Schema() string { return "ev_m_pt_4" }

type ev_m_st_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     evIn
}

func (ev_m_st_4) Schema() string { return "ev_m_st_4" }

type ev_m_pst_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     *evIn
}

func (ev_m_pst_4) Schema() string { return "ev_m_pst_4" }

type ev_m_sl_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     []string
}

func (ev_m_sl_4) Schema() string { return "ev_m_sl_4" }

type ev_m_sd_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     []time.Duration
}

func (ev_m_sd_4) Schema() string { return "ev_m_sd_4" }

type ev_m_ar_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     [2]string
}

func (ev_m_ar_4) Schema() string { return "ev_m_ar_4" }

type ev_m_m_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     map[string]string
}

func (ev_m_m_4) Schema() string { return "ev_m_m_4" }

type ev_m_mf_4 struct {
	F_A_B map[string]string `trace:"A B"`
	A     map[string]float64
}

func (ev_m_mf_4) Schema() string { return "ev_m_mf_4" }

type ev_mf_s_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     string
}

func (ev_mf_s_4) Schema() string { return "ev_mf_s_4" }

type ev_mf_i_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     int
}

func (ev_mf_i_4) Schema() string { return "ev_mf_i_4" }

type ev_mf_f_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     float64
}

func (ev_mf_f_4) Schema() string { return "ev_mf_f_4" }

type ev_mf_t_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     time.Time
}

func (ev_mf_t_4) Schema() string { return "ev_mf_t_4" }

type ev_mf_d_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     time.Duration
}

func (ev_mf_d_4) Schema() string { return "ev_mf_d_4" }

type ev_mf_ps_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     *string
}

func (ev_mf_ps_4) Schema() string { return "ev_mf_ps_4" }

type ev_mf_pi_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     *int
}

func (ev_mf_pi_4) Schema() string { return "ev_mf_pi_4" }

type ev_mf_pt_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     *time.Time
}

func (ev_mf_pt_4) Schema() string { return "ev_mf_pt_4" }

type ev_mf_st_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     evIn
}

func (ev_mf_st_4) Schema() string { return "ev_mf_st_4" }

type ev_mf_pst_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     *evIn
}

func (ev_mf_pst_4) Schema() string { return "ev_mf_pst_4" }

type ev_mf_sl_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     []string
}

func (ev_mf_sl_4) Schema() string { return "ev_mf_sl_4" }

type ev_mf_sd_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     []time.Duration
}

func (ev_mf_sd_4) Schema() string { return "ev_mf_sd_4" }

type ev_mf_ar_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     [2]string
}

func (ev_mf_ar_4) Schema() string { return "ev_mf_ar_4" }

type ev_mf_m_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     map[string]string
}

func (ev_mf_m_4) Schema() string { return "ev_mf_m_4" }

type ev_mf_mf_4 struct {
	F_A_B map[string]float64 `trace:"A B"`
	A     map[string]float64
}

func (ev_mf_mf_4) Schema() string { return "ev_mf_mf_4" }

type evr0 struct {
	F_A_ []byte     `trace:"A+"`
	F_0  *time.Time `trace:"0"`
	AB   evDeep
}

func (evr0) Schema() string { return "evr0" }

type evr1 struct {
	Msg int8
	AB  [1]time.Time
	X   time.Duration
}

func (evr1) Schema() string { return "evr1" }

type evr2 struct {
	F_1  string   `trace:"1"`
	F_A_ *float32 `trace:"A-"`
	F_a  bool     `trace:"a"`
	Msg  []time.Duration
}

func (evr2) Schema() string { return "evr2" }

type evr3 struct {
	F_a []int64 `trace:"a"`
}

func (evr3) Schema() string { return "evr3" }

type evr4 struct {
	Msg  string
	AB   float32
	F_0  map[string]float64 `trace:"0"`
	Time *evDeep
	F_a  int `trace:"a"`
	A    *time.Time
}

func (evr4) Schema() string { return "evr4" }

type evr5 struct{ Msg map[string]int }

func (evr5) Schema() string { return "evr5" }

type evr6 struct {
	ABC    string
	F_A_B  uint `trace:"A B"`
	B      []byte
	F_A_B_ []time.Duration `trace:"A/B"`
	Msg    bool
}

func (evr6) Schema() string { return "evr6" }

type evr7 struct {
	B    *evLevel
	Name []string
	F_1  *evLevel `trace:"1"`
	A_   map[string]uint16
}

func (evr7) Schema() string { return "evr7" }

type evr8 struct {
	F_a  time.Duration `trace:"a"`
	ABC  []time.Duration
	Time map[string]int
}

func (evr8) Schema() string { return "evr8" }

type evr9 struct {
	F_B_D float64 `trace:"B.D"`
	A_    *[]string
	F_B_C *evDeep `trace:"B.C"`
	F_A_  int16   `trace:"A~"`
	F_A__ uint64  `trace:"A-"`
}

func (evr9) Schema() string { return "evr9" }

type evr10 struct {
	F_A_  [1]time.Time `trace:"A+"`
	F_B_D evIn         `trace:"B.D"`
	F_1   []byte       `trace:"1"`
}

func (evr10) Schema() string { return "evr10" }

type evr11 struct {
	Name  []string
	Msg   *evLevel
	A_    []byte
	Time  time.Duration
	F_A_B map[string]time.Duration `trace:"A/B"`
	F_A_  *map[string]string       `trace:"A~"`
	F_a   time.Time                `trace:"a"`
}

func (evr11) Schema() string { return "evr11" }

type evr12 struct {
	F_A_  *bool `trace:"A-"`
	AB    evIn
	F_A__ map[string]time.Time `trace:"A~"`
	F_B_C [2]string            `trace:"B.C"`
	Name  *evLevel
	F_A_B map[string]time.Time `trace:"A/B"`
}

func (evr12) Schema() string { return "evr12" }

type evr13 struct {
	Time  *string
	F_A_B bool `trace:"A B"`
}

func (evr13) Schema() string { return "evr13" }

type evr14 struct {
	F_A_  uint32            `trace:"A~"`
	F_A__ map[string]string `trace:"A+"`
}

func (evr14) Schema() string { return "evr14" }

type evr15 struct {
	F_0   *int           `trace:"0"`
	F_B_D *time.Duration `trace:"B.D"`
	F_A_  string         `trace:"A-"`
	ABC   map[string]time.Duration
}

func (evr15) Schema() string { return "evr15" }

type evr16 struct {
	F_1  map[string]time.Duration `trace:"1"`
	Name uint
}

func (evr16) Schema() string { return "evr16" }

type evr17 struct {
	F_A_B time.Duration `trace:"A/B"`
	F_0   int32         `trace:"0"`
	F_a   int           `trace:"a"`
	F_A_  evLevel       `trace:"A+"`
}

func (evr17) Schema() string { return "evr17" }

type evr18 struct {
	F_a   [3]int8 `trace:"a"`
	A     int
	F_B_D *evDeep `trace:"B.D"`
	ABC   *time.Time
	Z     map[string]uint16
	F_A_  []float32 `trace:"A+"`
}

func (evr18) Schema() string { return "evr18" }

type evr19 struct {
	A_    uint8
	F_A_  []evLevel `trace:"A+"`
	X     string
	AB    *time.Duration
	F_B_C *time.Duration `trace:"B.C"`
}

func (evr19) Schema() string { return "evr19" }

type evr20 struct {
	F_0   bool   `trace:"0"`
	F_A_B int64  `trace:"A B"`
	F_B_D []byte `trace:"B.D"`
	Time  int8
}

func (evr20) Schema() string { return "evr20" }

type evr21 struct {
	ABC   evDeep
	F_A_B [3]int8 `trace:"A B"`
	A_    []time.Duration
	AB    int
}

func (evr21) Schema() string { return "evr21" }

type evr22 struct {
	F_A_B  []float32 `trace:"A B"`
	F_A_B_ *bool     `trace:"A/B"`
	A      int
	F_A_   []int64 `trace:"A-"`
	B      map[string]bool
}

func (evr22) Schema() string { return "evr22" }

type evr23 struct {
	Time  float64
	F_A_B float64 `trace:"A/B"`
	F_B_D *string `trace:"B.D"`
}

func (evr23) Schema() string { return "evr23" }

type evr24 struct {
	F_B_D int `trace:"B.D"`
	Time  evDeep
	F_A_  uint32             `trace:"A~"`
	F_A__ map[string]evLevel `trace:"A-"`
}

func (evr24) Schema() string { return "evr24" }

type evr25 struct {
	Z     *evIn
	F_B_D map[string]uint16 `trace:"B.D"`
	ABC   int
	X     time.Time
	A     *time.Time
	F_A_B [2]string `trace:"A B"`
}

func (evr25) Schema() string { return "evr25" }

type evr26 struct {
	X     map[string]time.Time
	F_A_  uint8   `trace:"A~"`
	F_A__ evLevel `trace:"A-"`
	Z     *time.Time
	F_A_B *time.Time `trace:"A/B"`
	F_B_C uint8      `trace:"B.C"`
	Name  *[]string
}

func (evr26) Schema() string { return "evr26" }

type evr27 struct {
	F_a  *time.Duration `trace:"a"`
	B    uint32
	Time evLevel
}

func (evr27) Schema() string { return "evr27" }

type evr28 struct {
	X     map[string]time.Time
	F_B_D uint16 `trace:"B.D"`
}

func (evr28) Schema() string { return "evr28" }

type evr29 struct{ A map[string]time.Duration }

func (evr29) Schema() string { return "evr29" }

type evr30 struct {
	Z     uint16
	B     map[string]time.Time
	F_A_B map[string]uint16 `trace:"A/B"`
}

func (evr30) Schema() string { return "evr30" }

type evr31 struct {
	F_a evDeep `trace:"a"`
}

func (evr31) Schema() string { return "evr31" }

type evr32 struct{ B map[string]evLevel }

func (evr32) Schema() string { return "evr32" }

type evr33 struct {
	F_B_D *map[string]string `trace:"B.D"`
	A     []time.Time
}

func (evr33) Schema() string { return "evr33" }

type evr34 struct {
	F_A_  uint   `trace:"A-"`
	F_A_B uint64 `trace:"A B"`
	F_0   int64  `trace:"0"`
}

func (evr34) Schema() string { return "evr34" }

type evr35 struct {
	ABC  uint16
	F_1  *time.Duration `trace:"1"`
	A_   *evLevel
	F_A_ *time.Duration `trace:"A-"`
}

func (evr35) Schema() string { return "evr35" }

type evr36 struct {
	F_A_  []string `trace:"A-"`
	ABC   *evLevel
	Msg   []time.Time
	F_A__ int `trace:"A+"`
	A     []float32
	Time  []bool
}

func (evr36) Schema() string { return "evr36" }

type evr37 struct {
	F_A_B [2]string `trace:"A/B"`
	F_A_  [3]int8   `trace:"A+"`
	Name  uint16
	Msg   []time.Time
}

func (evr37) Schema() string { return "evr37" }

type evr38 struct{ X uint32 }

func (evr38) Schema() string { return "evr38" }

type evr39 struct {
	F_1 int8 `trace:"1"`
	B   [2]string
}

func (evr39) Schema() string { return "evr39" }

type evr40 struct {
	B    map[string]string
	F_A_ uint64 `trace:"A~"`
	X    []string
}

func (evr40) Schema() string { return "evr40" }

type evr41 struct {
	Z    float32
	Name bool
	F_1  uint32 `trace:"1"`
}

func (evr41) Schema() string { return "evr41" }

type evr42 struct {
	F_B_C *evDeep `trace:"B.C"`
	Msg   *[]string
	X     float32
}

func (evr42) Schema() string { return "evr42" }

type evr43 struct {
	F_A_  uint8 `trace:"A+"`
	X     int32
	Msg   []bool
	A     [3]int8
	F_B_C uint8 `trace:"B.C"`
}

func (evr43) Schema() string { return "evr43" }

type evr44 struct {
	F_A_  map[evKey]string `trace:"A+"`
	ABC   []evLevel
	Time  *evIn
	F_B_D *evIn  `trace:"B.D"`
	F_A_B string `trace:"A B"`
	Z     *map[string]string
	A     uint8
}

func (evr44) Schema() string { return "evr44" }

type evr45 struct{ Name bool }

func (evr45) Schema() string { return "evr45" }

type evr46 struct {
	B [1]time.Time
	Z uint8
}

func (evr46) Schema() string { return "evr46" }

type evr47 struct{ X *int }

func (evr47) Schema() string { return "evr47" }

type evr48 struct {
	A    time.Time
	F_A_ map[string]time.Duration `trace:"A-"`
	A_   *int
	B    *[]string
}

func (evr48) Schema() string { return "evr48" }

type evr49 struct {
	F_B_D string `trace:"B.D"`
	X     int64
	F_a   *int `trace:"a"`
	Msg   float32
	Z     *evDeep
}

func (evr49) Schema() string { return "evr49" }

type evr50 struct {
	F_0 *int `trace:"0"`
}

func (evr50) Schema() string { return "evr50" }

type evr51 struct {
	F_A_ []byte `trace:"A-"`
	F_a  int8   `trace:"a"`
	F_1  evIn   `trace:"1"`
}

func (evr51) Schema() string { return "evr51" }

type evr52 struct {
	F_A_B  int             `trace:"A B"`
	F_A_   map[string]bool `trace:"A+"`
	F_A_B_ float32         `trace:"A/B"`
}

func (evr52) Schema() string { return "evr52" }

type evr53 struct {
	F_a   int16   `trace:"a"`
	F_A_B evIn    `trace:"A B"`
	F_0   evLevel `trace:"0"`
	F_B_D int16   `trace:"B.D"`
}

func (evr53) Schema() string { return "evr53" }

type evr54 struct {
	F_1   map[string]time.Time `trace:"1"`
	X     map[evKey]string
	F_0   time.Duration `trace:"0"`
	A_    uint16
	Time  map[string]uint16
	F_A_B [2]string `trace:"A B"`
}

func (evr54) Schema() string { return "evr54" }

type evr55 struct {
	Name  uint
	F_B_C [2]string `trace:"B.C"`
	Msg   *bool
}

func (evr55) Schema() string { return "evr55" }

type evr56 struct {
	X    []byte
	F_A_ float64 `trace:"A~"`
	Time evLevel
}

func (evr56) Schema() string { return "evr56" }

type evr57 struct {
	F_A_ map[string]bool `trace:"A-"`
}

func (evr57) Schema() string { return "evr57" }

type evr58 struct {
	AB  uint64
	ABC float32
	Z   *float32
}

func (evr58) Schema() string { return "evr58" }

type evr59 struct {
	Z     time.Duration
	F_0   map[string]time.Duration `trace:"0"`
	F_A_  bool                     `trace:"A+"`
	X     time.Time
	F_B_D int32    `trace:"B.D"`
	F_A_B *float32 `trace:"A/B"`
	ABC   []byte
}

func (evr59) Schema() string { return "evr59" }

type evr60 struct {
	A    time.Duration
	F_A_ []bool `trace:"A-"`
	Z    evLevel
}

func (evr60) Schema() string { return "evr60" }

type evr61 struct{ Z float64 }

func (evr61) Schema() string { return "evr61" }

type evr62 struct {
	A    map[string]time.Duration
	A_   []float32
	Name float32
	F_1  [1]time.Time `trace:"1"`
}

func (evr62) Schema() string { return "evr62" }

type evr63 struct {
	F_a   int32 `trace:"a"`
	F_A_B int64 `trace:"A B"`
	ABC   map[string]int
	Z     []int64
	AB    map[string]int
}

func (evr63) Schema() string { return "evr63" }

type evr64 struct {
	B    map[string]time.Duration
	F_A_ map[string]time.Time `trace:"A~"`
	X    [2]string
	ABC  map[string]bool
}

func (evr64) Schema() string { return "evr64" }

type evr65 struct{ A [2]string }

func (evr65) Schema() string { return "evr65" }

type evr66 struct {
	X     *int
	Name  evDeep
	B     evIn
	Time  []time.Time
	F_A_B *float32 `trace:"A B"`
}

func (evr66) Schema() string { return "evr66" }

type evr67 struct {
	F_B_D int8 `trace:"B.D"`
	Name  evLevel
	F_0   map[string]evLevel `trace:"0"`
	X     int64
	F_A_  uint   `trace:"A~"`
	F_A_B uint16 `trace:"A/B"`
}

func (evr67) Schema() string { return "evr67" }

type evr68 struct {
	F_A_  []byte  `trace:"A+"`
	F_0   []int64 `trace:"0"`
	F_A_B uint32  `trace:"A/B"`
	AB    map[string]bool
	Time  *float32
	A     int16
}

func (evr68) Schema() string { return "evr68" }

type evr69 struct {
	F_A_ evIn `trace:"A-"`
}

func (evr69) Schema() string { return "evr69" }

type evr70 struct {
	F_0  int32 `trace:"0"`
	X    int16
	F_A_ map[string]time.Duration `trace:"A~"`
	F_a  *int                     `trace:"a"`
	Name [3]int8
	A    map[string]bool
	Msg  map[string]uint16
}

func (evr70) Schema() string { return "evr70" }

type evr71 struct {
	Name [1]time.Time
	A_   map[string]int
	F_a  int8 `trace:"a"`
}

func (evr71) Schema() string { return "evr71" }

type evr72 struct {
	ABC *bool
	A   time.Duration
	A_  *map[string]string
}

func (evr72) Schema() string { return "evr72" }

type evr73 struct {
	X   *[]string
	B   uint8
	F_a [3]int8 `trace:"a"`
}

func (evr73) Schema() string { return "evr73" }

type evr74 struct{ Z time.Duration }

func (evr74) Schema() string { return "evr74" }

type evr75 struct {
	F_0 [1]time.Time `trace:"0"`
	Msg *time.Duration
}

func (evr75) Schema() string { return "evr75" }

type evr76 struct {
	F_A_ map[string]int `trace:"A~"`
}

func (evr76) Schema() string { return "evr76" }

type evr77 struct {
	F_a   map[evKey]string `trace:"a"`
	F_A_  uint16           `trace:"A-"`
	X     *string
	F_A__ int                `trace:"A+"`
	F_0   map[string]float64 `trace:"0"`
	F_B_D uint16             `trace:"B.D"`
}

func (evr77) Schema() string { return "evr77" }

type evr78 struct {
	F_A_ *evIn `trace:"A+"`
	AB   uint64
	X    *[]string
	F_1  []time.Duration `trace:"1"`
	Time [2]string
}

func (evr78) Schema() string { return "evr78" }

type evr79 struct {
	Msg  map[string]uint16
	F_a  evDeep `trace:"a"`
	F_A_ *bool  `trace:"A-"`
	A    *int
	AB   string
	Name bool
	A_   []int64
}

func (evr79) Schema() string { return "evr79" }

type evr80 struct{ Name []evLevel }

func (evr80) Schema() string { return "evr80" }

type evr81 struct {
	F_B_D [3]int8 `trace:"B.D"`
	Z     *evLevel
}

func (evr81) Schema() string { return "evr81" }

type evr82 struct {
	F_A_  *map[string]string `trace:"A-"`
	X     map[string]bool
	Name  []byte
	Time  map[string]bool
	Msg   map[string]string
	F_A_B uint16 `trace:"A/B"`
	F_B_C uint64 `trace:"B.C"`
}

func (evr82) Schema() string { return "evr82" }

type evr83 struct {
	F_a   *string `trace:"a"`
	F_B_C *bool   `trace:"B.C"`
}

func (evr83) Schema() string { return "evr83" }

type evr84 struct {
	F_B_D []evLevel `trace:"B.D"`
}

func (evr84) Schema() string { return "evr84" }

type evr85 struct {
	AB   []bool
	B    int
	F_A_ map[string]evLevel `trace:"A-"`
}

func (evr85) Schema() string { return "evr85" }

type evr86 struct {
	F_A_  [3]int8 `trace:"A~"`
	Msg   *map[string]string
	F_A__ bool `trace:"A+"`
}

func (evr86) Schema() string { return "evr86" }

type evr87 struct {
	Z     map[string]float64
	F_A_B uint `trace:"A B"`
	B     *evIn
}

func (evr87) Schema() string { return "evr87" }

type evr88 struct {
	F_B_C uint8 `trace:"B.C"`
	Time  float64
	Msg   string
}

func (evr88) Schema() string { return "evr88" }

type evr89 struct {
	F_A_  *map[string]string `trace:"A~"`
	F_A__ [2]string          `trace:"A-"`
}

func (evr89) Schema() string { return "evr89" }

type evr90 struct {
	F_B_C *int                     `trace:"B.C"`
	F_A_  map[string]time.Duration `trace:"A-"`
	X     *bool
}

func (evr90) Schema() string { return "evr90" }

type evr91 struct {
	B    []string
	F_A_ time.Duration `trace:"A-"`
}

func (evr91) Schema() string { return "evr91" }

type evr92 struct {
	X map[string]uint16
	Z float32
}

func (evr92) Schema() string { return "evr92" }

type evr93 struct {
	X      *string
	Z      *string
	F_A_B  *time.Duration `trace:"A B"`
	F_A_B_ [2]string      `trace:"A/B"`
	F_a    int16          `trace:"a"`
}

func (evr93) Schema() string { return "evr93" }

type evr94 struct {
	F_B_D []evLevel `trace:"B.D"`
}

func (evr94) Schema() string { return "evr94" }

type evr95 struct {
	F_0   map[string]time.Time `trace:"0"`
	F_A_  *bool                `trace:"A~"`
	F_A__ map[evKey]string     `trace:"A+"`
	F_1   float64              `trace:"1"`
}

func (evr95) Schema() string { return "evr95" }

type evr96 struct {
	A_    uint
	A     [3]int8
	Time  uint32
	Name  map[string]float64
	F_0   map[string]bool `trace:"0"`
	AB    map[string]uint16
	F_A_B []byte `trace:"A B"`
}

func (evr96) Schema() string { return "evr96" }

type evr97 struct {
	F_0   *float32 `trace:"0"`
	Msg   uint64
	F_A_  map[string]time.Duration `trace:"A-"`
	F_A_B bool                     `trace:"A/B"`
}

func (evr97) Schema() string { return "evr97" }

type evr98 struct {
	F_A_B []int64 `trace:"A B"`
	AB    int
	F_A_  map[string]string `trace:"A~"`
}

func (evr98) Schema() string { return "evr98" }

type evr99 struct {
	F_1 int64 `trace:"1"`
	X   uint8
	A_  map[string]uint16
}

func (evr99) Schema() string { return "evr99" }

type evr100 struct {
	F_1   *evDeep `trace:"1"`
	A     *int
	F_0   []float32 `trace:"0"`
	B     uint64
	F_A_  float32 `trace:"A-"`
	Msg   []time.Time
	F_A_B map[string]float64 `trace:"A/B"`
}

func (evr100) Schema() string { return "evr100" }

type evr101 struct {
	AB   *map[string]string
	Name *evDeep
	F_A_ map[string]evLevel `trace:"A+"`
	ABC  map[string]float64
}

func (evr101) Schema() string { return "evr101" }

type evr102 struct {
	Z    []time.Time
	Time map[string]string
	F_0  map[string]int `trace:"0"`
}

func (evr102) Schema() string { return "evr102" }

type evr103 struct {
	Name  []time.Time
	F_0   int16  `trace:"0"`
	F_A_B []byte `trace:"A B"`
	ABC   int8
}

func (evr103) Schema() string { return "evr103" }

type evr104 struct {
	F_B_D uint64 `trace:"B.D"`
	Name  *int
	F_a   *float32 `trace:"a"`
	F_B_C float32  `trace:"B.C"`
	A_    string
}

func (evr104) Schema() string { return "evr104" }

type evr105 struct {
	F_a  int32              `trace:"a"`
	F_A_ map[string]evLevel `trace:"A-"`
}

func (evr105) Schema() string { return "evr105" }

type evr106 struct {
	F_A_  []time.Duration `trace:"A-"`
	A_    int64
	F_a   [2]string `trace:"a"`
	F_A_B uint32    `trace:"A/B"`
	Z     *evDeep
}

func (evr106) Schema() string { return "evr106" }

type evr107 struct {
	F_1 map[string]time.Duration `trace:"1"`
	X   map[string]evLevel
	B   uint64
	F_0 bool `trace:"0"`
}

func (evr107) Schema() string { return "evr107" }

type evr108 struct {
	Z     []evLevel
	Msg   *[]string
	F_A_B *evIn   `trace:"A/B"`
	F_A_  []int64 `trace:"A+"`
}

func (evr108) Schema() string { return "evr108" }

type evr109 struct {
	B    *int
	F_A_ *float32 `trace:"A-"`
	Z    map[string]int
	F_a  [2]string `trace:"a"`
	F_0  float32   `trace:"0"`
	Time [1]time.Time
	A_   *float32
}

func (evr109) Schema() string { return "evr109" }

type evr110 struct {
	Msg  *evIn
	Time *evLevel
	A    *int
	F_A_ map[string]string `trace:"A-"`
	B    evDeep
}

func (evr110) Schema() string { return "evr110" }

type evr111 struct {
	F_A_ *evIn `trace:"A+"`
	Time []evLevel
}

func (evr111) Schema() string { return "evr111" }

type evr112 struct {
	F_B_C time.Duration `trace:"B.C"`
}

func (evr112) Schema() string { return "evr112" }

type evr113 struct {
	AB   []time.Time
	A    uint
	F_A_ map[string]int `trace:"A+"`
	F_a  float32        `trace:"a"`
	Time []int64
}

func (evr113) Schema() string { return "evr113" }

type evr114 struct {
	X     evDeep
	F_1   []byte         `trace:"1"`
	F_A_B map[string]int `trace:"A B"`
}

func (evr114) Schema() string { return "evr114" }

type evr115 struct {
	Msg []bool
	B   [3]int8
	F_0 [3]int8 `trace:"0"`
	Z   *time.Time
	F_a map[string]int `trace:"a"`
}

func (evr115) Schema() string { return "evr115" }

type evr116 struct {
	Z     *evIn
	A_    map[string]string
	F_a   string            `trace:"a"`
	F_B_D map[string]string `trace:"B.D"`
}

func (evr116) Schema() string { return "evr116" }

type evr117 struct {
	F_1 uint `trace:"1"`
}

func (evr117) Schema() string { return "evr117" }

type evr118 struct {
	F_A_ []evLevel `trace:"A~"`
	AB   []time.Time
	A    *evDeep
	B    time.Duration
}

func (evr118) Schema() string { return "evr118" }

type evr119 struct {
	F_a   evLevel      `trace:"a"`
	F_1   *string      `trace:"1"`
	F_A_B [1]time.Time `trace:"A/B"`
}

func (evr119) Schema() string { return "evr119" }

type evr120 struct {
	A_    map[string]float64
	F_1   uint32    `trace:"1"`
	F_A_B *[]string `trace:"A/B"`
	F_0   []byte    `trace:"0"`
	B     int8
	A     *string
}

func (evr120) Schema() string { return "evr120" }

type evr121 struct {
	F_A_ evLevel `trace:"A~"`
	B    *evLevel
}

func (evr121) Schema() string { return "evr121" }

type evr122 struct {
	Z    evDeep
	F_A_ []float32 `trace:"A~"`
}

func (evr122) Schema() string { return "evr122" }

type evr123 struct {
	Time  *evDeep
	ABC   evIn
	F_a   bool   `trace:"a"`
	F_B_D []bool `trace:"B.D"`
}

func (evr123) Schema() string { return "evr123" }

type evr124 struct {
	F_0 int8 `trace:"0"`
	AB  [2]string
}

func (evr124) Schema() string { return "evr124" }

type evr125 struct {
	F_A_ *time.Duration `trace:"A+"`
	F_1  *int           `trace:"1"`
	AB   uint
	Name map[evKey]string
	ABC  uint16
}

func (evr125) Schema() string { return "evr125" }

type evr126 struct {
	F_A_ int16 `trace:"A-"`
}

func (evr126) Schema() string { return "evr126" }

type evr127 struct {
	B   uint32
	ABC *evLevel
	X   [1]time.Time
}

func (evr127) Schema() string { return "evr127" }

type evr128 struct {
	F_0   *int  `trace:"0"`
	F_A_B int16 `trace:"A/B"`
	A_    evDeep
}

func (evr128) Schema() string { return "evr128" }

type evr129 struct {
	F_A_ map[string]time.Duration `trace:"A-"`
}

func (evr129) Schema() string { return "evr129" }

type evr130 struct {
	F_A_B *evDeep `trace:"A/B"`
}

func (evr130) Schema() string { return "evr130" }

type evr131 struct{ Name uint64 }

func (evr131) Schema() string { return "evr131" }

type evr132 struct {
	F_0   uint8          `trace:"0"`
	F_A_B map[string]int `trace:"A/B"`
}

func (evr132) Schema() string { return "evr132" }

type evr133 struct {
	F_1  *int  `trace:"1"`
	F_A_ int64 `trace:"A-"`
	AB   map[evKey]string
	B    map[string]uint16
	ABC  uint32
	Z    *map[string]string
}

func (evr133) Schema() string { return "evr133" }

type evr134 struct {
	F_1 map[string]string `trace:"1"`
}

func (evr134) Schema() string { return "evr134" }

type evr135 struct {
	F_0   bool `trace:"0"`
	AB    map[string]bool
	Time  int64
	Msg   uint32
	F_B_C []byte `trace:"B.C"`
	X     []bool
	Name  map[string]evLevel
}

func (evr135) Schema() string { return "evr135" }

type evr136 struct {
	Z  map[string]bool
	A_ uint32
	AB uint
}

func (evr136) Schema() string { return "evr136" }

type evr137 struct {
	A_    evLevel
	Z     evDeep
	F_A_  *map[string]string `trace:"A~"`
	A     uint
	F_A__ *evLevel `trace:"A-"`
	X     uint8
}

func (evr137) Schema() string { return "evr137" }

type evr138 struct {
	Z     *string
	F_1   int32   `trace:"1"`
	F_B_D [3]int8 `trace:"B.D"`
	F_A_  uint32  `trace:"A+"`
}

func (evr138) Schema() string { return "evr138" }

type evr139 struct {
	F_A_ map[evKey]string `trace:"A+"`
	F_a  *evLevel         `trace:"a"`
	A_   map[string]uint16
}

func (evr139) Schema() string { return "evr139" }

type evr140 struct {
	Time map[string]string
	F_A_ *evDeep `trace:"A-"`
	X    []byte
	B    []time.Time
	F_0  [1]time.Time `trace:"0"`
	Msg  *map[string]string
}

func (evr140) Schema() string { return "evr140" }

type evr141 struct {
	Name  []byte
	A_    map[string]bool
	ABC   []float32
	F_1   time.Duration `trace:"1"`
	F_A_B int8          `trace:"A B"`
}

func (evr141) Schema() string { return "evr141" }

type evr142 struct {
	F_1 *string `trace:"1"`
}

func (evr142) Schema() string { return "evr142" }

type evr143 struct {
	F_B_C []float32 `trace:"B.C"`
	ABC   []evLevel
	F_a   map[string]string `trace:"a"`
	F_A_  uint32            `trace:"A+"`
	F_1   *time.Time        `trace:"1"`
	Name  uint8
}

func (evr143) Schema() string { return "evr143" }

type evr144 struct {
	F_A_B map[string]bool `trace:"A B"`
	F_A_  uint32          `trace:"A~"`
	Msg   map[string]bool
	Z     int64
	X     *int
	ABC   map[string]string
}

func (evr144) Schema() string { return "evr144" }

type evr145 struct {
	F_a  int `trace:"a"`
	Time map[string]float64
}

func (evr145) Schema() string { return "evr145" }

type evr146 struct {
	B    map[string]string
	A_   *[]string
	F_A_ *evIn   `trace:"A-"`
	F_0  evLevel `trace:"0"`
	Z    []time.Time
}

func (evr146) Schema() string { return "evr146" }

type evr147 struct {
	F_A_B evLevel `trace:"A B"`
	F_B_C *int    `trace:"B.C"`
	AB    map[string]uint16
	Time  [1]time.Time
	A     map[string]float64
	F_a   evLevel `trace:"a"`
	F_1   float64 `trace:"1"`
}

func (evr147) Schema() string { return "evr147" }

type evr148 struct{ B []bool }

func (evr148) Schema() string { return "evr148" }

type evr149 struct {
	Msg   map[string]bool
	B     uint8
	F_A_  uint8 `trace:"A-"`
	F_A_B evIn  `trace:"A/B"`
	ABC   [3]int8
	F_a   evDeep  `trace:"a"`
	F_A__ []int64 `trace:"A~"`
}

func (evr149) Schema() string { return "evr149" }

type evr150 struct {
	Time  map[string]evLevel
	F_A_B int `trace:"A/B"`
	B     [1]time.Time
	AB    int8
	Msg   map[string]bool
}

func (evr150) Schema() string { return "evr150" }

type evr151 struct{ Time uint16 }

func (evr151) Schema() string { return "evr151" }

type evr152 struct {
	B     []float32
	A     map[string]int
	A_    []byte
	F_1   int8         `trace:"1"`
	F_A_B [1]time.Time `trace:"A/B"`
	F_A_  *string      `trace:"A-"`
}

func (evr152) Schema() string { return "evr152" }

type evr153 struct {
	F_B_D evIn       `trace:"B.D"`
	F_A_  string     `trace:"A-"`
	F_1   int        `trace:"1"`
	F_A_B []int64    `trace:"A B"`
	F_0   *time.Time `trace:"0"`
}

func (evr153) Schema() string { return "evr153" }

type evr154 struct{ ABC *time.Duration }

func (evr154) Schema() string { return "evr154" }

type evr155 struct {
	Z    map[string]int
	F_1  uint32          `trace:"1"`
	F_A_ []time.Duration `trace:"A~"`
	Name map[string]time.Time
	Msg  *evDeep
	A    *evDeep
}

func (evr155) Schema() string { return "evr155" }

type evr156 struct {
	F_A_B []time.Time `trace:"A/B"`
}

func (evr156) Schema() string { return "evr156" }

type evr157 struct {
	F_0  int8 `trace:"0"`
	Time [3]int8
}

func (evr157) Schema() string { return "evr157" }

type evr158 struct {
	ABC   *time.Duration
	F_1   []time.Duration   `trace:"1"`
	F_A_B map[string]uint16 `trace:"A B"`
	F_A_  *evLevel          `trace:"A-"`
}

func (evr158) Schema() string { return "evr158" }

type evr159 struct {
	ABC  *time.Duration
	F_A_ time.Duration `trace:"A+"`
	A    []time.Duration
	AB   []float32
	Msg  map[string]uint16
	A_   uint32
	F_0  *[]string `trace:"0"`
}

func (evr159) Schema() string { return "evr159" }

type evm0 struct {
	K0  int
	Kx0 map[string]time.Time
}

func (evm0) Schema() string { return "evm0" }

type evm1 struct {
	Ka0  int16
	Kax0 *evIn
	Ka_0 int16
}

func (evm1) Schema() string { return "evm1" }

type evm2 struct {
	F_K_0 evDeep `trace:"K-0"`
}

func (evm2) Schema() string { return "evm2" }

type evm3 struct {
	F_K_a0   *string        `trace:"K a0"`
	F_K_ax0  uint64         `trace:"K ax0"`
	F_K_a_0  int64          `trace:"K a_0"`
	F_K_a_0_ map[string]int `trace:"K a+0"`
}

func (evm3) Schema() string { return "evm3" }

type evm4 struct {
	Kab0  [1]time.Time
	Kabx0 *map[string]string
}

func (evm4) Schema() string { return "evm4" }

type evm5 struct {
	L0  bool
	Lx0 []bool
	L_0 []int64
}

func (evm5) Schema() string { return "evm5" }

type evm6 struct {
	K1    time.Duration
	Kx1   uint
	K_1   []float32
	F_K_1 time.Time `trace:"K+1"`
}

func (evm6) Schema() string { return "evm6" }

type evm7 struct {
	Ka1  []int64
	Kax1 evLevel
}

func (evm7) Schema() string { return "evm7" }

type evm8 struct {
	F_K_1   []float32          `trace:"K-1"`
	F_K_x1  int64              `trace:"K-x1"`
	F_K__1  *map[string]string `trace:"K-_1"`
	F_K__1_ int32              `trace:"K-+1"`
}

func (evm8) Schema() string { return "evm8" }

type evm9 struct {
	F_K_a1  [1]time.Time   `trace:"K a1"`
	F_K_ax1 *time.Duration `trace:"K ax1"`
}

func (evm9) Schema() string { return "evm9" }

type evm10 struct {
	Kab1  *bool
	Kabx1 map[string]time.Time
}

func (evm10) Schema() string { return "evm10" }

type evm11 struct{ L1 int }

func (evm11) Schema() string { return "evm11" }

type evm12 struct {
	K2  uint16
	Kx2 int64
}

func (evm12) Schema() string { return "evm12" }

type evm13 struct{ Ka2 string }

func (evm13) Schema() string { return "evm13" }

type evm14 struct {
	F_K_2 evIn `trace:"K-2"`
}

func (evm14) Schema() string { return "evm14" }

type evm15 struct {
	F_K_a2  float64 `trace:"K a2"`
	F_K_ax2 *bool   `trace:"K ax2"`
	F_K_a_2 []bool  `trace:"K a_2"`
}

func (evm15) Schema() string { return "evm15" }

type evm16 struct {
	Kab2    string
	Kabx2   []int64
	Kab_2   uint8
	F_Kab_2 map[string]int `trace:"Kab+2"`
}

func (evm16) Schema() string { return "evm16" }

type evm17 struct {
	L2    map[string]int
	Lx2   []string
	L_2   map[string]string
	F_L_2 *float32 `trace:"L+2"`
}

func (evm17) Schema() string { return "evm17" }

type evm18 struct {
	K3    evIn
	Kx3   map[string]uint16
	K_3   *int
	F_K_3 *[]string `trace:"K+3"`
}

func (evm18) Schema() string { return "evm18" }

type evm19 struct {
	Ka3    int32
	Kax3   [2]string
	Ka_3   [3]int8
	F_Ka_3 []float32 `trace:"Ka+3"`
}

func (evm19) Schema() string { return "evm19" }

type evm20 struct {
	F_K_3   *evLevel          `trace:"K-3"`
	F_K_x3  map[string]string `trace:"K-x3"`
	F_K__3  *int              `trace:"K-_3"`
	F_K__3_ uint64            `trace:"K-+3"`
}

func (evm20) Schema() string { return "evm20" }

type evm21 struct {
	F_K_a3   int32              `trace:"K a3"`
	F_K_ax3  *map[string]string `trace:"K ax3"`
	F_K_a_3  *time.Duration     `trace:"K a_3"`
	F_K_a_3_ evDeep             `trace:"K a+3"`
}

func (evm21) Schema() string { return "evm21" }

type evm22 struct{ Kab3 float32 }

func (evm22) Schema() string { return "evm22" }

type evm23 struct {
	L3  *float32
	Lx3 map[string]uint16
	L_3 time.Duration
}

func (evm23) Schema() string { return "evm23" }

func init() {
	eventTypes["ev_s_s_1"] = ev_s_s_1{}
	eventTypes["ev_s_i_1"] = ev_s_i_1{}
	eventTypes["ev_s_f_1"] = ev_s_f_1{}
	eventTypes["ev_s_t_1"] = ev_s_t_1{}
	eventTypes["ev_s_d_1"] = ev_s_d_1{}
	eventTypes["ev_s_ps_1"] = ev_s_ps_1{}
	eventTypes["ev_s_pi_1"] = ev_s_pi_1{}
	eventTypes["ev_s_pt_1"] = ev_s_pt_1{}
	eventTypes["ev_s_st_1"] = ev_s_st_1{}
	eventTypes["ev_s_pst_1"] = ev_s_pst_1{}
	eventTypes["ev_s_sl_1"] = ev_s_sl_1{}
	eventTypes["ev_s_sd_1"] = ev_s_sd_1{}
	eventTypes["ev_s_ar_1"] = ev_s_ar_1{}
	eventTypes["ev_s_m_1"] = ev_s_m_1{}
	eventTypes["ev_s_mf_1"] = ev_s_mf_1{}
	eventTypes["ev_i_s_1"] = ev_i_s_1{}
	eventTypes["ev_i_i_1"] = ev_i_i_1{}
	eventTypes["ev_i_f_1"] = ev_i_f_1{}
	eventTypes["ev_i_t_1"] = ev_i_t_1{}
	eventTypes["ev_i_d_1"] = ev_i_d_1{}
	eventTypes["ev_i_ps_1"] = ev_i_ps_1{}
	eventTypes["ev_i_pi_1"] = ev_i_pi_1{}
	eventTypes["ev_i_pt_1"] = ev_i_pt_1{}
	eventTypes["ev_i_st_1"] = ev_i_st_1{}
	eventTypes["ev_i_pst_1"] = ev_i_pst_1{}
	eventTypes["ev_i_sl_1"] = ev_i_sl_1{}
	eventTypes["ev_i_sd_1"] = ev_i_sd_1{}
	eventTypes["ev_i_ar_1"] = ev_i_ar_1{}
	eventTypes["ev_i_m_1"] = ev_i_m_1{}
	eventTypes["ev_i_mf_1"] = ev_i_mf_1{}
	eventTypes["ev_f_s_1"] = ev_f_s_1{}
	eventTypes["ev_f_i_1"] = ev_f_i_1{}
	eventTypes["ev_f_f_1"] = ev_f_f_1{}
	eventTypes["ev_f_t_1"] = ev_f_t_1{}
	eventTypes["ev_f_d_1"] = ev_f_d_1{}
	eventTypes["ev_f_ps_1"] = ev_f_ps_1{}
	eventTypes["ev_f_pi_1"] = ev_f_pi_1{}
	eventTypes["ev_f_pt_1"] = ev_f_pt_1{}
	eventTypes["ev_f_st_1"] = ev_f_st_1{}
	eventTypes["ev_f_pst_1"] = ev_f_pst_1{}
	eventTypes["ev_f_sl_1"] = ev_f_sl_1{}
	eventTypes["ev_f_sd_1"] = ev_f_sd_1{}
	eventTypes["ev_f_ar_1"] = ev_f_ar_1{}
	eventTypes["ev_f_m_1"] = ev_f_m_1{}
	eventTypes["ev_f_mf_1"] = ev_f_mf_1{}
	eventTypes["ev_t_s_1"] = ev_t_s_1{}
	eventTypes["ev_t_i_1"] = ev_t_i_1{}
	eventTypes["ev_t_f_1"] = ev_t_f_1{}
	eventTypes["ev_t_t_1"] = ev_t_t_1{}
	eventTypes["ev_t_d_1"] = ev_t_d_1{}
	eventTypes["ev_t_ps_1"] = ev_t_ps_1{}
	eventTypes["ev_t_pi_1"] = ev_t_pi_1{}
	eventTypes["ev_t_pt_1"] = ev_t_pt_1{}
	eventTypes["ev_t_st_1"] = ev_t_st_1{}
	eventTypes["ev_t_pst_1"] = ev_t_pst_1{}
	eventTypes["ev_t_sl_1"] = ev_t_sl_1{}
	eventTypes["ev_t_sd_1"] = ev_t_sd_1{}
	eventTypes["ev_t_ar_1"] = ev_t_ar_1{}
	eventTypes["ev_t_m_1"] = ev_t_m_1{}
	eventTypes["ev_t_mf_1"] = ev_t_mf_1{}
	eventTypes["ev_d_s_1"] = ev_d_s_1{}
	eventTypes["ev_d_i_1"] = ev_d_i_1{}
	eventTypes["ev_d_f_1"] = ev_d_f_1{}
	eventTypes["ev_d_t_1"] = ev_d_t_1{}
	eventTypes["ev_d_d_1"] = ev_d_d_1{}
	eventTypes["ev_d_ps_1"] = ev_d_ps_1{}
	eventTypes["ev_d_pi_1"] = ev_d_pi_1{}
	eventTypes["ev_d_pt_1"] = ev_d_pt_1{}
	eventTypes["ev_d_st_1"] = ev_d_st_1{}
	eventTypes["ev_d_pst_1"] = ev_d_pst_1{}
	eventTypes["ev_d_sl_1"] = ev_d_sl_1{}
	eventTypes["ev_d_sd_1"] = ev_d_sd_1{}
	eventTypes["ev_d_ar_1"] = ev_d_ar_1{}
	eventTypes["ev_d_m_1"] = ev_d_m_1{}
	eventTypes["ev_d_mf_1"] = ev_d_mf_1{}
	eventTypes["ev_ps_s_1"] = ev_ps_s_1{}
	eventTypes["ev_ps_i_1"] = ev_ps_i_1{}
	eventTypes["ev_ps_f_1"] = ev_ps_f_1{}
	eventTypes["ev_ps_t_1"] = ev_ps_t_1{}
	eventTypes["ev_ps_d_1"] = ev_ps_d_1{}
	eventTypes["ev_ps_ps_1"] = ev_ps_ps_1{}
	eventTypes["ev_ps_pi_1"] = ev_ps_pi_1{}
	eventTypes["ev_ps_pt_1"] = ev_ps_pt_1{}
	eventTypes["ev_ps_st_1"] = ev_ps_st_1{}
	eventTypes["ev_ps_pst_1"] = ev_ps_pst_1{}
	eventTypes["ev_ps_sl_1"] = ev_ps_sl_1{}
	eventTypes["ev_ps_sd_1"] = ev_ps_sd_1{}
	eventTypes["ev_ps_ar_1"] = ev_ps_ar_1{}
	eventTypes["ev_ps_m_1"] = ev_ps_m_1{}
	eventTypes["ev_ps_mf_1"] = ev_ps_mf_1{}
	eventTypes["ev_pi_s_1"] = ev_pi_s_1{}
	eventTypes["ev_pi_i_1"] = ev_pi_i_1{}
	eventTypes["ev_pi_f_1"] = ev_pi_f_1{}
	eventTypes["ev_pi_t_1"] = ev_pi_t_1{}
	eventTypes["ev_pi_d_1"] = ev_pi_d_1{}
	eventTypes["ev_pi_ps_1"] = ev_pi_ps_1{}
	eventTypes["ev_pi_pi_1"] = ev_pi_pi_1{}
	eventTypes["ev_pi_pt_1"] = ev_pi_pt_1{}
	eventTypes["ev_pi_st_1"] = ev_pi_st_1{}
	eventTypes["ev_pi_pst_1"] = ev_pi_pst_1{}
	eventTypes["ev_pi_sl_1"] = ev_pi_sl_1{}
	eventTypes["ev_pi_sd_1"] = ev_pi_sd_1{}
	eventTypes["ev_pi_ar_1"] = ev_pi_ar_1{}
	eventTypes["ev_pi_m_1"] = ev_pi_m_1{}
	eventTypes["ev_pi_mf_1"] = ev_pi_mf_1{}
	eventTypes["ev_pt_s_1"] = ev_pt_s_1{}
	eventTypes["ev_pt_i_1"] = ev_pt_i_1{}
	eventTypes["ev_pt_f_1"] = ev_pt_f_1{}
	eventTypes["ev_pt_t_1"] = ev_pt_t_1{}
	eventTypes["ev_pt_d_1"] = ev_pt_d_1{}
	eventTypes["ev_pt_ps_1"] = ev_pt_ps_1{}
	eventTypes["ev_pt_pi_1"] = ev_pt_pi_1{}
	eventTypes["ev_pt_pt_1"] = ev_pt_pt_1{}
	eventTypes["ev_pt_st_1"] = ev_pt_st_1{}
	eventTypes["ev_pt_pst_1"] = ev_pt_pst_1{}
	eventTypes["ev_pt_sl_1"] = ev_pt_sl_1{}
	eventTypes["ev_pt_sd_1"] = ev_pt_sd_1{}
	eventTypes["ev_pt_ar_1"] = ev_pt_ar_1{}
	eventTypes["ev_pt_m_1"] = ev_pt_m_1{}
	eventTypes["ev_pt_mf_1"] = ev_pt_mf_1{}
	eventTypes["ev_st_s_1"] = ev_st_s_1{}
	eventTypes["ev_st_i_1"] = ev_st_i_1{}
	eventTypes["ev_st_f_1"] = ev_st_f_1{}
	eventTypes["ev_st_t_1"] = ev_st_t_1{}
	eventTypes["ev_st_d_1"] = ev_st_d_1{}
	eventTypes["ev_st_ps_1"] = ev_st_ps_1{}
	eventTypes["ev_st_pi_1"] = ev_st_pi_1{}
	eventTypes["ev_st_pt_1"] = ev_st_pt_1{}
	eventTypes["ev_st_st_1"] = ev_st_st_1{}
	eventTypes["ev_st_pst_1"] = ev_st_pst_1{}
	eventTypes["ev_st_sl_1"] = ev_st_sl_1{}
	eventTypes["ev_st_sd_1"] = ev_st_sd_1{}
	eventTypes["ev_st_ar_1"] = ev_st_ar_1{}
	eventTypes["ev_st_m_1"] = ev_st_m_1{}
	eventTypes["ev_st_mf_1"] = ev_st_mf_1{}
	eventTypes["ev_pst_s_1"] = ev_pst_s_1{}
	eventTypes["ev_pst_i_1"] = ev_pst_i_1{}
	eventTypes["ev_pst_f_1"] = ev_pst_f_1{}
	eventTypes["ev_pst_t_1"] = ev_pst_t_1{}
	eventTypes["ev_pst_d_1"] = ev_pst_d_1{}
	eventTypes["ev_pst_ps_1"] = ev_pst_ps_1{}
	eventTypes["ev_pst_pi_1"] = ev_pst_pi_1{}
	eventTypes["ev_pst_pt_1"] = ev_pst_pt_1{}
	eventTypes["ev_pst_st_1"] = ev_pst_st_1{}
	eventTypes["ev_pst_pst_1"] = ev_pst_pst_1{}
	eventTypes["ev_pst_sl_1"] = ev_pst_sl_1{}
	eventTypes["ev_pst_sd_1"] = ev_pst_sd_1{}
	eventTypes["ev_pst_ar_1"] = ev_pst_ar_1{}
	eventTypes["ev_pst_m_1"] = ev_pst_m_1{}
	eventTypes["ev_pst_mf_1"] = ev_pst_mf_1{}
	eventTypes["ev_sl_s_1"] = ev_sl_s_1{}
	eventTypes["ev_sl_i_1"] = ev_sl_i_1{}
	eventTypes["ev_sl_f_1"] = ev_sl_f_1{}
	eventTypes["ev_sl_t_1"] = ev_sl_t_1{}
	eventTypes["ev_sl_d_1"] = ev_sl_d_1{}
	eventTypes["ev_sl_ps_1"] = ev_sl_ps_1{}
	eventTypes["ev_sl_pi_1"] = ev_sl_pi_1{}
	eventTypes["ev_sl_pt_1"] = ev_sl_pt_1{}
	eventTypes["ev_sl_st_1"] = ev_sl_st_1{}
	eventTypes["ev_sl_pst_1"] = ev_sl_pst_1{}
	eventTypes["ev_sl_sl_1"] = ev_sl_sl_1{}
	eventTypes["ev_sl_sd_1"] = ev_sl_sd_1{}
	eventTypes["ev_sl_ar_1"] = ev_sl_ar_1{}
	eventTypes["ev_sl_m_1"] = ev_sl_m_1{}
	eventTypes["ev_sl_mf_1"] = ev_sl_mf_1{}
	eventTypes["ev_sd_s_1"] = ev_sd_s_1{}
	eventTypes["ev_sd_i_1"] = ev_sd_i_1{}
	eventTypes["ev_sd_f_1"] = ev_sd_f_1{}
	eventTypes["ev_sd_t_1"] = ev_sd_t_1{}
	eventTypes["ev_sd_d_1"] = ev_sd_d_1{}
	eventTypes["ev_sd_ps_1"] = ev_sd_ps_1{}
	eventTypes["ev_sd_pi_1"] = ev_sd_pi_1{}
	eventTypes["ev_sd_pt_1"] = ev_sd_pt_1{}
	eventTypes["ev_sd_st_1"] = ev_sd_st_1{}
	eventTypes["ev_sd_pst_1"] = ev_sd_pst_1{}
	eventTypes["ev_sd_sl_1"] = ev_sd_sl_1{}
	eventTypes["ev_sd_sd_1"] = ev_sd_sd_1{}
	eventTypes["ev_sd_ar_1"] = ev_sd_ar_1{}
	eventTypes["ev_sd_m_1"] = ev_sd_m_1{}
	eventTypes["ev_sd_mf_1"] = ev_sd_mf_1{}
	eventTypes["ev_ar_s_1"] = ev_ar_s_1{}
	eventTypes["ev_ar_i_1"] = ev_ar_i_1{}
	eventTypes["ev_ar_f_1"] = ev_ar_f_1{}
	eventTypes["ev_ar_t_1"] = ev_ar_t_1{}
	eventTypes["ev_ar_d_1"] = ev_ar_d_1{}
	eventTypes["ev_ar_ps_1"] = ev_ar_ps_1{}
	eventTypes["ev_ar_pi_1"] = ev_ar_pi_1{}
	eventTypes["ev_ar_pt_1"] = ev_ar_pt_1{}
	eventTypes["ev_ar_st_1"] = ev_ar_st_1{}
	eventTypes["ev_ar_pst_1"] = ev_ar_pst_1{}
	eventTypes["ev_ar_sl_1"] = ev_ar_sl_1{}
	eventTypes["ev_ar_sd_1"] = ev_ar_sd_1{}
	eventTypes["ev_ar_ar_1"] = ev_ar_ar_1{}
	eventTypes["ev_ar_m_1"] = ev_ar_m_1{}
	eventTypes["ev_ar_mf_1"] = ev_ar_mf_1{}
	eventTypes["ev_m_s_1"] = ev_m_s_1{}
	eventTypes["ev_m_i_1"] = ev_m_i_1{}
	eventTypes["ev_m_f_1"] = ev_m_f_1{}
	eventTypes["ev_m_t_1"] = ev_m_t_1{}
	eventTypes["ev_m_d_1"] = ev_m_d_1{}
	eventTypes["ev_m_ps_1"] = ev_m_ps_1{}
	eventTypes["ev_m_pi_1"] = ev_m_pi_1{}
	eventTypes["ev_m_pt_1"] = ev_m_pt_1{}
	eventTypes["ev_m_st_1"] = ev_m_st_1{}
	eventTypes["ev_m_pst_1"] = ev_m_pst_1{}
	eventTypes["ev_m_sl_1"] = ev_m_sl_1{}
	eventTypes["ev_m_sd_1"] = ev_m_sd_1{}
	eventTypes["ev_m_ar_1"] = ev_m_ar_1{}
	eventTypes["ev_m_m_1"] = ev_m_m_1{}
	eventTypes["ev_m_mf_1"] = ev_m_mf_1{}
	eventTypes["ev_mf_s_1"] = ev_mf_s_1{}
	eventTypes["ev_mf_i_1"] = ev_mf_i_1{}
	eventTypes["ev_mf_f_1"] = ev_mf_f_1{}
	eventTypes["ev_mf_t_1"] = ev_mf_t_1{}
	eventTypes["ev_mf_d_1"] = ev_mf_d_1{}
	eventTypes["ev_mf_ps_1"] = ev_mf_ps_1{}
	eventTypes["ev_mf_pi_1"] = ev_mf_pi_1{}
	eventTypes["ev_mf_pt_1"] = ev_mf_pt_1{}
	eventTypes["ev_mf_st_1"] = ev_mf_st_1{}
	eventTypes["ev_mf_pst_1"] = ev_mf_pst_1{}
	eventTypes["ev_mf_sl_1"] = ev_mf_sl_1{}
	eventTypes["ev_mf_sd_1"] = ev_mf_sd_1{}
	eventTypes["ev_mf_ar_1"] = ev_mf_ar_1{}
	eventTypes["ev_mf_m_1"] = ev_mf_m_1{}
	eventTypes["ev_mf_mf_1"] = ev_mf_mf_1{}
	eventTypes["ev_s_s_2"] = ev_s_s_2{}
	eventTypes["ev_s_i_2"] = ev_s_i_2{}
	eventTypes["ev_s_f_2"] = ev_s_f_2{}
	eventTypes["ev_s_t_2"] = ev_s_t_2{}
	eventTypes["ev_s_d_2"] = ev_s_d_2{}
	eventTypes["ev_s_ps_2"] = ev_s_ps_2{}
	eventTypes["ev_s_pi_2"] = ev_s_pi_2{}
	eventTypes["ev_s_pt_2"] = ev_s_pt_2{}
	eventTypes["ev_s_st_2"] = ev_s_st_2{}
	eventTypes["ev_s_pst_2"] = ev_s_pst_2{}
	eventTypes["ev_s_sl_2"] = ev_s_sl_2{}
	eventTypes["ev_s_sd_2"] = ev_s_sd_2{}
	eventTypes["ev_s_ar_2"] = ev_s_ar_2{}
	eventTypes["ev_s_m_2"] = ev_s_m_2{}
	eventTypes["ev_s_mf_2"] = ev_s_mf_2{}
	eventTypes["ev_i_s_2"] = ev_i_s_2{}
	eventTypes["ev_i_i_2"] = ev_i_i_2{}
	eventTypes["ev_i_f_2"] = ev_i_f_2{}
	eventTypes["ev_i_t_2"] = ev_i_t_2{}
	eventTypes["ev_i_d_2"] = ev_i_d_2{}
	eventTypes["ev_i_ps_2"] = ev_i_ps_2{}
	eventTypes["ev_i_pi_2"] = ev_i_pi_2{}
	eventTypes["ev_i_pt_2"] = ev_i_pt_2{}
	eventTypes["ev_i_st_2"] = ev_i_st_2{}
	eventTypes["ev_i_pst_2"] = ev_i_pst_2{}
	eventTypes["ev_i_sl_2"] = ev_i_sl_2{}
	eventTypes["ev_i_sd_2"] = ev_i_sd_2{}
	eventTypes["ev_i_ar_2"] = ev_i_ar_2{}
	eventTypes["ev_i_m_2"] = ev_i_m_2{}
	eventTypes["ev_i_mf_2"] = ev_i_mf_2{}
	eventTypes["ev_f_s_2"] = ev_f_s_2{}
	eventTypes["ev_f_i_2"] = ev_f_i_2{}
	eventTypes["ev_f_f_2"] = ev_f_f_2{}
	eventTypes["ev_f_t_2"] = ev_f_t_2{}
	eventTypes["ev_f_d_2"] = ev_f_d_2{}
	eventTypes["ev_f_ps_2"] = ev_f_ps_2{}
	eventTypes["ev_f_pi_2"] = ev_f_pi_2{}
	eventTypes["ev_f_pt_2"] = ev_f_pt_2{}
	eventTypes["ev_f_st_2"] = ev_f_st_2{}
	eventTypes["ev_f_pst_2"] = ev_f_pst_2{}
	eventTypes["ev_f_sl_2"] = ev_f_sl_2{}
	eventTypes["ev_f_sd_2"] = ev_f_sd_2{}
	eventTypes["ev_f_ar_2"] = ev_f_ar_2{}
	eventTypes["ev_f_m_2"] = ev_f_m_2{}
	eventTypes["ev_f_mf_2"] = ev_f_mf_2{}
	eventTypes["ev_t_s_2"] = ev_t_s_2{}
	eventTypes["ev_t_i_2"] = ev_t_i_2{}
	eventTypes["ev_t_f_2"] = ev_t_f_2{}
	eventTypes["ev_t_t_2"] = ev_t_t_2{}
	eventTypes["ev_t_d_2"] = ev_t_d_2{}
	eventTypes["ev_t_ps_2"] = ev_t_ps_2{}
	eventTypes["ev_t_pi_2"] = ev_t_pi_2{}
	eventTypes["ev_t_pt_2"] = ev_t_pt_2{}
	eventTypes["ev_t_st_2"] = ev_t_st_2{}
	eventTypes["ev_t_pst_2"] = ev_t_pst_2{}
	eventTypes["ev_t_sl_2"] = ev_t_sl_2{}
	eventTypes["ev_t_sd_2"] = ev_t_sd_2{}
	eventTypes["ev_t_ar_2"] = ev_t_ar_2{}
	eventTypes["ev_t_m_2"] = ev_t_m_2{}
	eventTypes["ev_t_mf_2"] = ev_t_mf_2{}
	eventTypes["ev_d_s_2"] = ev_d_s_2{}
	eventTypes["ev_d_i_2"] = ev_d_i_2{}
	eventTypes["ev_d_f_2"] = ev_d_f_2{}
	eventTypes["ev_d_t_2"] = ev_d_t_2{}
	eventTypes["ev_d_d_2"] = ev_d_d_2{}
	eventTypes["ev_d_ps_2"] = ev_d_ps_2{}
	eventTypes["ev_d_pi_2"] = ev_d_pi_2{}
	eventTypes["ev_d_pt_2"] = ev_d_pt_2{}
	eventTypes["ev_d_st_2"] = ev_d_st_2{}
	eventTypes["ev_d_pst_2"] = ev_d_pst_2{}
	eventTypes["ev_d_sl_2"] = ev_d_sl_2{}
	eventTypes["ev_d_sd_2"] = ev_d_sd_2{}
	eventTypes["ev_d_ar_2"] = ev_d_ar_2{}
	eventTypes["ev_d_m_2"] = ev_d_m_2{}
	eventTypes["ev_d_mf_2"] = ev_d_mf_2{}
	eventTypes["ev_ps_s_2"] = ev_ps_s_2{}
	eventTypes["ev_ps_i_2"] = ev_ps_i_2{}
	eventTypes["ev_ps_f_2"] = ev_ps_f_2{}
	eventTypes["ev_ps_t_2"] = ev_ps_t_2{}
	eventTypes["ev_ps_d_2"] = ev_ps_d_2{}
	eventTypes["ev_ps_ps_2"] = ev_ps_ps_2{}
	eventTypes["ev_ps_pi_2"] = ev_ps_pi_2{}
	eventTypes["ev_ps_pt_2"] = ev_ps_pt_2{}
	eventTypes["ev_ps_st_2"] = ev_ps_st_2{}
	eventTypes["ev_ps_pst_2"] = ev_ps_pst_2{}
	eventTypes["ev_ps_sl_2"] = ev_ps_sl_2{}
	eventTypes["ev_ps_sd_2"] = ev_ps_sd_2{}
	eventTypes["ev_ps_ar_2"] = ev_ps_ar_2{}
	eventTypes["ev_ps_m_2"] = ev_ps_m_2{}
	eventTypes["ev_ps_mf_2"] = ev_ps_mf_2{}
	eventTypes["ev_pi_s_2"] = ev_pi_s_2{}
	eventTypes["ev_pi_i_2"] = ev_pi_i_2{}
	eventTypes["ev_pi_f_2"] = ev_pi_f_2{}
	eventTypes["ev_pi_t_2"] = ev_pi_t_2{}
	eventTypes["ev_pi_d_2"] = ev_pi_d_2{}
	eventTypes["ev_pi_ps_2"] = ev_pi_ps_2{}
	eventTypes["ev_pi_pi_2"] = ev_pi_pi_2{}
	eventTypes["ev_pi_pt_2"] = ev_pi_pt_2{}
	eventTypes["ev_pi_st_2"] = ev_pi_st_2{}
	eventTypes["ev_pi_pst_2"] = ev_pi_pst_2{}
	eventTypes["ev_pi_sl_2"] = ev_pi_sl_2{}
	eventTypes["ev_pi_sd_2"] = ev_pi_sd_2{}
	eventTypes["ev_pi_ar_2"] = ev_pi_ar_2{}
	eventTypes["ev_pi_m_2"] = ev_pi_m_2{}
	eventTypes["ev_pi_mf_2"] = ev_pi_mf_2{}
	eventTypes["ev_pt_s_2"] = ev_pt_s_2{}
	eventTypes["ev_pt_i_2"] = ev_pt_i_2{}
	eventTypes["ev_pt_f_2"] = ev_pt_f_2{}
	eventTypes["ev_pt_t_2"] = ev_pt_t_2{}
	eventTypes["ev_pt_d_2"] = ev_pt_d_2{}
	eventTypes["ev_pt_ps_2"] = ev_pt_ps_2{}
	eventTypes["ev_pt_pi_2"] = ev_pt_pi_2{}
	eventTypes["ev_pt_pt_2"] = ev_pt_pt_2{}
	eventTypes["ev_pt_st_2"] = ev_pt_st_2{}
	eventTypes["ev_pt_pst_2"] = ev_pt_pst_2{}
	eventTypes["ev_pt_sl_2"] = ev_pt_sl_2{}
	eventTypes["ev_pt_sd_2"] = ev_pt_sd_2{}
	eventTypes["ev_pt_ar_2"] = ev_pt_ar_2{}
	eventTypes["ev_pt_m_2"] = ev_pt_m_2{}
	eventTypes["ev_pt_mf_2"] = ev_pt_mf_2{}
	eventTypes["ev_st_s_2"] = ev_st_s_2{}
	eventTypes["ev_st_i_2"] = ev_st_i_2{}
	eventTypes["ev_st_f_2"] = ev_st_f_2{}
	eventTypes["ev_st_t_2"] = ev_st_t_2{}
	eventTypes["ev_st_d_2"] = ev_st_d_2{}
	eventTypes["ev_st_ps_2"] = ev_st_ps_2{}
	eventTypes["ev_st_pi_2"] = ev_st_pi_2{}
	eventTypes["ev_st_pt_2"] = ev_st_pt_2{}
	eventTypes["ev_st_st_2"] = ev_st_st_2{}
	eventTypes["ev_st_pst_2"] = ev_st_pst_2{}
	eventTypes["ev_st_sl_2"] = ev_st_sl_2{}
	eventTypes["ev_st_sd_2"] = ev_st_sd_2{}
	eventTypes["ev_st_ar_2"] = ev_st_ar_2{}
	eventTypes["ev_st_m_2"] = ev_st_m_2{}
	eventTypes["ev_st_mf_2"] = ev_st_mf_2{}
	eventTypes["ev_pst_s_2"] = ev_pst_s_2{}
	eventTypes["ev_pst_i_2"] = ev_pst_i_2{}
	eventTypes["ev_pst_f_2"] = ev_pst_f_2{}
	eventTypes["ev_pst_t_2"] = ev_pst_t_2{}
	eventTypes["ev_pst_d_2"] = ev_pst_d_2{}
	eventTypes["ev_pst_ps_2"] = ev_pst_ps_2{}
	eventTypes["ev_pst_pi_2"] = ev_pst_pi_2{}
	eventTypes["ev_pst_pt_2"] = ev_pst_pt_2{}
	eventTypes["ev_pst_st_2"] = ev_pst_st_2{}
	eventTypes["ev_pst_pst_2"] = ev_pst_pst_2{}
	eventTypes["ev_pst_sl_2"] = ev_pst_sl_2{}
	eventTypes["ev_pst_sd_2"] = ev_pst_sd_2{}
	eventTypes["ev_pst_ar_2"] = ev_pst_ar_2{}
	eventTypes["ev_pst_m_2"] = ev_pst_m_2{}
	eventTypes["ev_pst_mf_2"] = ev_pst_mf_2{}
	eventTypes["ev_sl_s_2"] = ev_sl_s_2{}
	eventTypes["ev_sl_i_2"] = ev_sl_i_2{}
	eventTypes["ev_sl_f_2"] = ev_sl_f_2{}
	eventTypes["ev_sl_t_2"] = ev_sl_t_2{}
	eventTypes["ev_sl_d_2"] = ev_sl_d_2{}
	eventTypes["ev_sl_ps_2"] = ev_sl_ps_2{}
	eventTypes["ev_sl_pi_2"] = ev_sl_pi_2{}
	eventTypes["ev_sl_pt_2"] = ev_sl_pt_2{}
	eventTypes["ev_sl_st_2"] = ev_sl_st_2{}
	eventTypes["ev_sl_pst_2"] = ev_sl_pst_2{}
	eventTypes["ev_sl_sl_2"] = ev_sl_sl_2{}
	eventTypes["ev_sl_sd_2"] = ev_sl_sd_2{}
	eventTypes["ev_sl_ar_2"] = ev_sl_ar_2{}
	eventTypes["ev_sl_m_2"] = ev_sl_m_2{}
	eventTypes["ev_sl_mf_2"] = ev_sl_mf_2{}
	eventTypes["ev_sd_s_2"] = ev_sd_s_2{}
	eventTypes["ev_sd_i_2"] = ev_sd_i_2{}
	eventTypes["ev_sd_f_2"] = ev_sd_f_2{}
	eventTypes["ev_sd_t_2"] = ev_sd_t_2{}
	eventTypes["ev_sd_d_2"] = ev_sd_d_2{}
	eventTypes["ev_sd_ps_2"] = ev_sd_ps_2{}
	eventTypes["ev_sd_pi_2"] = ev_sd_pi_2{}
	eventTypes["ev_sd_pt_2"] = ev_sd_pt_2{}
	eventTypes["ev_sd_st_2"] = ev_sd_st_2{}
	eventTypes["ev_sd_pst_2"] = ev_sd_pst_2{}
	eventTypes["ev_sd_sl_2"] = ev_sd_sl_2{}
	eventTypes["ev_sd_sd_2"] = ev_sd_sd_2{}
	eventTypes["ev_sd_ar_2"] = ev_sd_ar_2{}
	eventTypes["ev_sd_m_2"] = ev_sd_m_2{}
	eventTypes["ev_sd_mf_2"] = ev_sd_mf_2{}
	eventTypes["ev_ar_s_2"] = ev_ar_s_2{}
	eventTypes["ev_ar_i_2"] = ev_ar_i_2{}
	eventTypes["ev_ar_f_2"] = ev_ar_f_2{}
	eventTypes["ev_ar_t_2"] = ev_ar_t_2{}
	eventTypes["ev_ar_d_2"] = ev_ar_d_2{}
	eventTypes["ev_ar_ps_2"] = ev_ar_ps_2{}
	eventTypes["ev_ar_pi_2"] = ev_ar_pi_2{}
	eventTypes["ev_ar_pt_2"] = ev_ar_pt_2{}
	eventTypes["ev_ar_st_2"] = ev_ar_st_2{}
	eventTypes["ev_ar_pst_2"] = ev_ar_pst_2{}
	eventTypes["ev_ar_sl_2"] = ev_ar_sl_2{}
	eventTypes["ev_ar_sd_2"] = ev_ar_sd_2{}
	eventTypes["ev_ar_ar_2"] = ev_ar_ar_2{}
	eventTypes["ev_ar_m_2"] = ev_ar_m_2{}
	eventTypes["ev_ar_mf_2"] = ev_ar_mf_2{}
	eventTypes["ev_m_s_2"] = ev_m_s_2{}
	eventTypes["ev_m_i_2"] = ev_m_i_2{}
	eventTypes["ev_m_f_2"] = ev_m_f_2{}
	eventTypes["ev_m_t_2"] = ev_m_t_2{}
	eventTypes["ev_m_d_2"] = ev_m_d_2{}
	eventTypes["ev_m_ps_2"] = ev_m_ps_2{}
	eventTypes["ev_m_pi_2"] = ev_m_pi_2{}
	eventTypes["ev_m_pt_2"] = ev_m_pt_2{}
	eventTypes["ev_m_st_2"] = ev_m_st_2{}
	eventTypes["ev_m_pst_2"] = ev_m_pst_2{}
	eventTypes["ev_m_sl_2"] = ev_m_sl_2{}
	eventTypes["ev_m_sd_2"] = ev_m_sd_2{}
	eventTypes["ev_m_ar_2"] = ev_m_ar_2{}
	eventTypes["ev_m_m_2"] = ev_m_m_2{}
	eventTypes["ev_m_mf_2"] = ev_m_mf_2{}
	eventTypes["ev_mf_s_2"] = ev_mf_s_2{}
	eventTypes["ev_mf_i_2"] = ev_mf_i_2{}
	eventTypes["ev_mf_f_2"] = ev_mf_f_2{}
	eventTypes["ev_mf_t_2"] = ev_mf_t_2{}
	eventTypes["ev_mf_d_2"] = ev_mf_d_2{}
	eventTypes["ev_mf_ps_2"] = ev_mf_ps_2{}
	eventTypes["ev_mf_pi_2"] = ev_mf_pi_2{}
	eventTypes["ev_mf_pt_2"] = ev_mf_pt_2{}
	eventTypes["ev_mf_st_2"] = ev_mf_st_2{}
	eventTypes["ev_mf_pst_2"] = ev_mf_pst_2{}
	eventTypes["ev_mf_sl_2"] = ev_mf_sl_2{}
	eventTypes["ev_mf_sd_2"] = ev_mf_sd_2{}
	eventTypes["ev_mf_ar_2"] = ev_mf_ar_2{}
	eventTypes["ev_mf_m_2"] = ev_mf_m_2{}
	eventTypes["ev_mf_mf_2"] = ev_mf_mf_2{}
	eventTypes["ev_s_s_3"] = ev_s_s_3{}
	eventTypes["ev_s_i_3"] = ev_s_i_3{}
	eventTypes["ev_s_f_3"] = ev_s_f_3{}
	eventTypes["ev_s_t_3"] = ev_s_t_3{}
	eventTypes["ev_s_d_3"] = ev_s_d_3{}
	eventTypes["ev_s_ps_3"] = ev_s_ps_3{}
	eventTypes["ev_s_pi_3"] = ev_s_pi_3{}
	eventTypes["ev_s_pt_3"] = ev_s_pt_3{}
	eventTypes["ev_s_st_3"] = ev_s_st_3{}
	eventTypes["ev_s_pst_3"] = ev_s_pst_3{}
	eventTypes["ev_s_sl_3"] = ev_s_sl_3{}
	eventTypes["ev_s_sd_3"] = ev_s_sd_3{}
	eventTypes["ev_s_ar_3"] = ev_s_ar_3{}
	eventTypes["ev_s_m_3"] = ev_s_m_3{}
	eventTypes["ev_s_mf_3"] = ev_s_mf_3{}
	eventTypes["ev_i_s_3"] = ev_i_s_3{}
	eventTypes["ev_i_i_3"] = ev_i_i_3{}
	eventTypes["ev_i_f_3"] = ev_i_f_3{}
	eventTypes["ev_i_t_3"] = ev_i_t_3{}
	eventTypes["ev_i_d_3"] = ev_i_d_3{}
	eventTypes["ev_i_ps_3"] = ev_i_ps_3{}
	eventTypes["ev_i_pi_3"] = ev_i_pi_3{}
	eventTypes["ev_i_pt_3"] = ev_i_pt_3{}
	eventTypes["ev_i_st_3"] = ev_i_st_3{}
	eventTypes["ev_i_pst_3"] = ev_i_pst_3{}
	eventTypes["ev_i_sl_3"] = ev_i_sl_3{}
	eventTypes["ev_i_sd_3"] = ev_i_sd_3{}
	eventTypes["ev_i_ar_3"] = ev_i_ar_3{}
	eventTypes["ev_i_m_3"] = ev_i_m_3{}
	eventTypes["ev_i_mf_3"] = ev_i_mf_3{}
	eventTypes["ev_f_s_3"] = ev_f_s_3{}
	eventTypes["ev_f_i_3"] = ev_f_i_3{}
	eventTypes["ev_f_f_3"] = ev_f_f_3{}
	eventTypes["ev_f_t_3"] = ev_f_t_3{}
	eventTypes["ev_f_d_3"] = ev_f_d_3{}
	eventTypes["ev_f_ps_3"] = ev_f_ps_3{}
	eventTypes["ev_f_pi_3"] = ev_f_pi_3{}
	eventTypes["ev_f_pt_3"] = ev_f_pt_3{}
	eventTypes["ev_f_st_3"] = ev_f_st_3{}
	eventTypes["ev_f_pst_3"] = ev_f_pst_3{}
	eventTypes["ev_f_sl_3"] = ev_f_sl_3{}
	eventTypes["ev_f_sd_3"] = ev_f_sd_3{}
	eventTypes["ev_f_ar_3"] = ev_f_ar_3{}
	eventTypes["ev_f_m_3"] = ev_f_m_3{}
	eventTypes["ev_f_mf_3"] = ev_f_mf_3{}
	eventTypes["ev_t_s_3"] = ev_t_s_3{}
	eventTypes["ev_t_i_3"] = ev_t_i_3{}
	eventTypes["ev_t_f_3"] = ev_t_f_3{}
	eventTypes["ev_t_t_3"] = ev_t_t_3{}
	eventTypes["ev_t_d_3"] = ev_t_d_3{}
	eventTypes["ev_t_ps_3"] = ev_t_ps_3{}
	eventTypes["ev_t_pi_3"] = ev_t_pi_3{}
	eventTypes["ev_t_pt_3"] = ev_t_pt_3{}
	eventTypes["ev_t_st_3"] = ev_t_st_3{}
	eventTypes["ev_t_pst_3"] = ev_t_pst_3{}
	eventTypes["ev_t_sl_3"] = ev_t_sl_3{}
	eventTypes["ev_t_sd_3"] = ev_t_sd_3{}
	eventTypes["ev_t_ar_3"] = ev_t_ar_3{}
	eventTypes["ev_t_m_3"] = ev_t_m_3{}
	eventTypes["ev_t_mf_3"] = ev_t_mf_3{}
	eventTypes["ev_d_s_3"] = ev_d_s_3{}
	eventTypes["ev_d_i_3"] = ev_d_i_3{}
	eventTypes["ev_d_f_3"] = ev_d_f_3{}
	eventTypes["ev_d_t_3"] = ev_d_t_3{}
	eventTypes["ev_d_d_3"] = ev_d_d_3{}
	eventTypes["ev_d_ps_3"] = ev_d_ps_3{}
	eventTypes["ev_d_pi_3"] = ev_d_pi_3{}
	eventTypes["ev_d_pt_3"] = ev_d_pt_3{}
	eventTypes["ev_d_st_3"] = ev_d_st_3{}
	eventTypes["ev_d_pst_3"] = ev_d_pst_3{}
	eventTypes["ev_d_sl_3"] = ev_d_sl_3{}
	eventTypes["ev_d_sd_3"] = ev_d_sd_3{}
	eventTypes["ev_d_ar_3"] = ev_d_ar_3{}
	eventTypes["ev_d_m_3"] = ev_d_m_3{}
	eventTypes["ev_d_mf_3"] = ev_d_mf_3{}
	eventTypes["ev_ps_s_3"] = ev_ps_s_3{}
	eventTypes["ev_ps_i_3"] = ev_ps_i_3{}
	eventTypes["ev_ps_f_3"] = ev_ps_f_3{}
	eventTypes["ev_ps_t_3"] = ev_ps_t_3{}
	eventTypes["ev_ps_d_3"] = ev_ps_d_3{}
	eventTypes["ev_ps_ps_3"] = ev_ps_ps_3{}
	eventTypes["ev_ps_pi_3"] = ev_ps_pi_3{}
	eventTypes["ev_ps_pt_3"] = ev_ps_pt_3{}
	eventTypes["ev_ps_st_3"] = ev_ps_st_3{}
	eventTypes["ev_ps_pst_3"] = ev_ps_pst_3{}
	eventTypes["ev_ps_sl_3"] = ev_ps_sl_3{}
	eventTypes["ev_ps_sd_3"] = ev_ps_sd_3{}
	eventTypes["ev_ps_ar_3"] = ev_ps_ar_3{}
	eventTypes["ev_ps_m_3"] = ev_ps_m_3{}
	eventTypes["ev_ps_mf_3"] = ev_ps_mf_3{}
	eventTypes["ev_pi_s_3"] = ev_pi_s_3{}
	eventTypes["ev_pi_i_3"] = ev_pi_i_3{}
	eventTypes["ev_pi_f_3"] = ev_pi_f_3{}
	eventTypes["ev_pi_t_3"] = ev_pi_t_3{}
	eventTypes["ev_pi_d_3"] = ev_pi_d_3{}
	eventTypes["ev_pi_ps_3"] = ev_pi_ps_3{}
	eventTypes["ev_pi_pi_3"] = ev_pi_pi_3{}
	eventTypes["ev_pi_pt_3"] = ev_pi_pt_3{}
	eventTypes["ev_pi_st_3"] = ev_pi_st_3{}
	eventTypes["ev_pi_pst_3"] = ev_pi_pst_3{}
	eventTypes["ev_pi_sl_3"] = ev_pi_sl_3{}
	eventTypes["ev_pi_sd_3"] = ev_pi_sd_3{}
	eventTypes["ev_pi_ar_3"] = ev_pi_ar_3{}
	eventTypes["ev_pi_m_3"] = ev_pi_m_3{}
	eventTypes["ev_pi_mf_3"] = ev_pi_mf_3{}
	eventTypes["ev_pt_s_3"] = ev_pt_s_3{}
	eventTypes["ev_pt_i_3"] = ev_pt_i_3{}
	eventTypes["ev_pt_f_3"] = ev_pt_f_3{}
	eventTypes["ev_pt_t_3"] = ev_pt_t_3{}
	eventTypes["ev_pt_d_3"] = ev_pt_d_3{}
	eventTypes["ev_pt_ps_3"] = ev_pt_ps_3{}
	eventTypes["ev_pt_pi_3"] = ev_pt_pi_3{}
	eventTypes["ev_pt_pt_3"] = ev_pt_pt_3{}
	eventTypes["ev_pt_st_3"] = ev_pt_st_3{}
	eventTypes["ev_pt_pst_3"] = ev_pt_pst_3{}
	eventTypes["ev_pt_sl_3"] = ev_pt_sl_3{}
	eventTypes["ev_pt_sd_3"] = ev_pt_sd_3{}
	eventTypes["ev_pt_ar_3"] = ev_pt_ar_3{}
	eventTypes["ev_pt_m_3"] = ev_pt_m_3{}
	eventTypes["ev_pt_mf_3"] = ev_pt_mf_3{}
	eventTypes["ev_st_s_3"] = ev_st_s_3{}
	eventTypes["ev_st_i_3"] = ev_st_i_3{}
	eventTypes["ev_st_f_3"] = ev_st_f_3{}
	eventTypes["ev_st_t_3"] = ev_st_t_3{}
	eventTypes["ev_st_d_3"] = ev_st_d_3{}
	eventTypes["ev_st_ps_3"] = ev_st_ps_3{}
	eventTypes["ev_st_pi_3"] = ev_st_pi_3{}
	eventTypes["ev_st_pt_3"] = ev_st_pt_3{}
	eventTypes["ev_st_st_3"] = ev_st_st_3{}
	eventTypes["ev_st_pst_3"] = ev_st_pst_3{}
	eventTypes["ev_st_sl_3"] = ev_st_sl_3{}
	eventTypes["ev_st_sd_3"] = ev_st_sd_3{}
	eventTypes["ev_st_ar_3"] = ev_st_ar_3{}
	eventTypes["ev_st_m_3"] = ev_st_m_3{}
	eventTypes["ev_st_mf_3"] = ev_st_mf_3{}
	eventTypes["ev_pst_s_3"] = ev_pst_s_3{}
	eventTypes["ev_pst_i_3"] = ev_pst_i_3{}
	eventTypes["ev_pst_f_3"] = ev_pst_f_3{}
	eventTypes["ev_pst_t_3"] = ev_pst_t_3{}
	eventTypes["ev_pst_d_3"] = ev_pst_d_3{}
	eventTypes["ev_pst_ps_3"] = ev_pst_ps_3{}
	eventTypes["ev_pst_pi_3"] = ev_pst_pi_3{}
	eventTypes["ev_pst_pt_3"] = ev_pst_pt_3{}
	eventTypes["ev_pst_st_3"] = ev_pst_st_3{}
	eventTypes["ev_pst_pst_3"] = ev_pst_pst_3{}
	eventTypes["ev_pst_sl_3"] = ev_pst_sl_3{}
	eventTypes["ev_pst_sd_3"] = ev_pst_sd_3{}
	eventTypes["ev_pst_ar_3"] = ev_pst_ar_3{}
	eventTypes["ev_pst_m_3"] = ev_pst_m_3{}
	eventTypes["ev_pst_mf_3"] = ev_pst_mf_3{}
	eventTypes["ev_sl_s_3"] = ev_sl_s_3{}
	eventTypes["ev_sl_i_3"] = ev_sl_i_3{}
	eventTypes["ev_sl_f_3"] = ev_sl_f_3{}
	eventTypes["ev_sl_t_3"] = ev_sl_t_3{}
	eventTypes["ev_sl_d_3"] = ev_sl_d_3{}
	eventTypes["ev_sl_ps_3"] = ev_sl_ps_3{}
	eventTypes["ev_sl_pi_3"] = ev_sl_pi_3{}
	eventTypes["ev_sl_pt_3"] = ev_sl_pt_3{}
	eventTypes["ev_sl_st_3"] = ev_sl_st_3{}
	eventTypes["ev_sl_pst_3"] = ev_sl_pst_3{}
	eventTypes["ev_sl_sl_3"] = ev_sl_sl_3{}
	eventTypes["ev_sl_sd_3"] = ev_sl_sd_3{}
	eventTypes["ev_sl_ar_3"] = ev_sl_ar_3{}
	eventTypes["ev_sl_m_3"] = ev_sl_m_3{}
	eventTypes["ev_sl_mf_3"] = ev_sl_mf_3{}
	eventTypes["ev_sd_s_3"] = ev_sd_s_3{}
	eventTypes["ev_sd_i_3"] = ev_sd_i_3{}
	eventTypes["ev_sd_f_3"] = ev_sd_f_3{}
	eventTypes["ev_sd_t_3"] = ev_sd_t_3{}
	eventTypes["ev_sd_d_3"] = ev_sd_d_3{}
	eventTypes["ev_sd_ps_3"] = ev_sd_ps_3{}
	eventTypes["ev_sd_pi_3"] = ev_sd_pi_3{}
	eventTypes["ev_sd_pt_3"] = ev_sd_pt_3{}
	eventTypes["ev_sd_st_3"] = ev_sd_st_3{}
	eventTypes["ev_sd_pst_3"] = ev_sd_pst_3{}
	eventTypes["ev_sd_sl_3"] = ev_sd_sl_3{}
	eventTypes["ev_sd_sd_3"] = ev_sd_sd_3{}
	eventTypes["ev_sd_ar_3"] = ev_sd_ar_3{}
	eventTypes["ev_sd_m_3"] = ev_sd_m_3{}
	eventTypes["ev_sd_mf_3"] = ev_sd_mf_3{}
	eventTypes["ev_ar_s_3"] = ev_ar_s_3{}
	eventTypes["ev_ar_i_3"] = ev_ar_i_3{}
	eventTypes["ev_ar_f_3"] = ev_ar_f_3{}
	eventTypes["ev_ar_t_3"] = ev_ar_t_3{}
	eventTypes["ev_ar_d_3"] = ev_ar_d_3{}
	eventTypes["ev_ar_ps_3"] = ev_ar_ps_3{}
	eventTypes["ev_ar_pi_3"] = ev_ar_pi_3{}
	eventTypes["ev_ar_pt_3"] = ev_ar_pt_3{}
	eventTypes["ev_ar_st_3"] = ev_ar_st_3{}
	eventTypes["ev_ar_pst_3"] = ev_ar_pst_3{}
	eventTypes["ev_ar_sl_3"] = ev_ar_sl_3{}
	eventTypes["ev_ar_sd_3"] = ev_ar_sd_3{}
	eventTypes["ev_ar_ar_3"] = ev_ar_ar_3{}
	eventTypes["ev_ar_m_3"] = ev_ar_m_3{}
	eventTypes["ev_ar_mf_3"] = ev_ar_mf_3{}
	eventTypes["ev_m_s_3"] = ev_m_s_3{}
	eventTypes["ev_m_i_3"] = ev_m_i_3{}
	eventTypes["ev_m_f_3"] = ev_m_f_3{}
	eventTypes["ev_m_t_3"] = ev_m_t_3{}
	eventTypes["ev_m_d_3"] = ev_m_d_3{}
	eventTypes["ev_m_ps_3"] = ev_m_ps_3{}
	eventTypes["ev_m_pi_3"] = ev_m_pi_3{}
	eventTypes["ev_m_pt_3"] = ev_m_pt_3{}
	eventTypes["ev_m_st_3"] = ev_m_st_3{}
	eventTypes["ev_m_pst_3"] = ev_m_pst_3{}
	eventTypes["ev_m_sl_3"] = ev_m_sl_3{}
	eventTypes["ev_m_sd_3"] = ev_m_sd_3{}
	eventTypes["ev_m_ar_3"] = ev_m_ar_3{}
	eventTypes["ev_m_m_3"] = ev_m_m_3{}
	eventTypes["ev_m_mf_3"] = ev_m_mf_3{}
	eventTypes["ev_mf_s_3"] = ev_mf_s_3{}
	eventTypes["ev_mf_i_3"] = ev_mf_i_3{}
	eventTypes["ev_mf_f_3"] = ev_mf_f_3{}
	eventTypes["ev_mf_t_3"] = ev_mf_t_3{}
	eventTypes["ev_mf_d_3"] = ev_mf_d_3{}
	eventTypes["ev_mf_ps_3"] = ev_mf_ps_3{}
	eventTypes["ev_mf_pi_3"] = ev_mf_pi_3{}
	eventTypes["ev_mf_pt_3"] = ev_mf_pt_3{}
	eventTypes["ev_mf_st_3"] = ev_mf_st_3{}
	eventTypes["ev_mf_pst_3"] = ev_mf_pst_3{}
	eventTypes["ev_mf_sl_3"] = ev_mf_sl_3{}
	eventTypes["ev_mf_sd_3"] = ev_mf_sd_3{}
	eventTypes["ev_mf_ar_3"] = ev_mf_ar_3{}
	eventTypes["ev_mf_m_3"] = ev_mf_m_3{}
	eventTypes["ev_mf_mf_3"] = ev_mf_mf_3{}
	eventTypes["ev_s_s_4"] = ev_s_s_4{}
	eventTypes["ev_s_i_4"] = ev_s_i_4{}
	eventTypes["ev_s_f_4"] = ev_s_f_4{}
	eventTypes["ev_s_t_4"] = ev_s_t_4{}
	eventTypes["ev_s_d_4"] = ev_s_d_4{}
	eventTypes["ev_s_ps_4"] = ev_s_ps_4{}
	eventTypes["ev_s_pi_4"] = ev_s_pi_4{}
	eventTypes["ev_s_pt_4"] = ev_s_pt_4{}
	eventTypes["ev_s_st_4"] = ev_s_st_4{}
	eventTypes["ev_s_pst_4"] = ev_s_pst_4{}
	eventTypes["ev_s_sl_4"] = ev_s_sl_4{}
	eventTypes["ev_s_sd_4"] = ev_s_sd_4{}
	eventTypes["ev_s_ar_4"] = ev_s_ar_4{}
	eventTypes["ev_s_m_4"] = ev_s_m_4{}
	eventTypes["ev_s_mf_4"] = ev_s_mf_4{}
	eventTypes["ev_i_s_4"] = ev_i_s_4{}
	eventTypes["ev_i_i_4"] = ev_i_i_4{}
	eventTypes["ev_i_f_4"] = ev_i_f_4{}
	eventTypes["ev_i_t_4"] = ev_i_t_4{}
	eventTypes["ev_i_d_4"] = ev_i_d_4{}
	eventTypes["ev_i_ps_4"] = ev_i_ps_4{}
	eventTypes["ev_i_pi_4"] = ev_i_pi_4{}
	eventTypes["ev_i_pt_4"] = ev_i_pt_4{}
	eventTypes["ev_i_st_4"] = ev_i_st_4{}
	eventTypes["ev_i_pst_4"] = ev_i_pst_4{}
	eventTypes["ev_i_sl_4"] = ev_i_sl_4{}
	eventTypes["ev_i_sd_4"] = ev_i_sd_4{}
	eventTypes["ev_i_ar_4"] = ev_i_ar_4{}
	eventTypes["ev_i_m_4"] = ev_i_m_4{}
	eventTypes["ev_i_mf_4"] = ev_i_mf_4{}
	eventTypes["ev_f_s_4"] = ev_f_s_4{}
	eventTypes["ev_f_i_4"] = ev_f_i_4{}
	eventTypes["ev_f_f_4"] = ev_f_f_4{}
	eventTypes["ev_f_t_4"] = ev_f_t_4{}
	eventTypes["ev_f_d_4"] = ev_f_d_4{}
	eventTypes["ev_f_ps_4"] = ev_f_ps_4{}
	eventTypes["ev_f_pi_4"] = ev_f_pi_4{}
	eventTypes["ev_f_pt_4"] = ev_f_pt_4{}
	eventTypes["ev_f_st_4"] = ev_f_st_4{}
	eventTypes["ev_f_pst_4"] = ev_f_pst_4{}
	eventTypes["ev_f_sl_4"] = ev_f_sl_4{}
	eventTypes["ev_f_sd_4"] = ev_f_sd_4{}
	eventTypes["ev_f_ar_4"] = ev_f_ar_4{}
	eventTypes["ev_f_m_4"] = ev_f_m_4{}
	eventTypes["ev_f_mf_4"] = ev_f_mf_4{}
	eventTypes["ev_t_s_4"] = ev_t_s_4{}
	eventTypes["ev_t_i_4"] = ev_t_i_4{}
	eventTypes["ev_t_f_4"] = ev_t_f_4{}
	eventTypes["ev_t_t_4"] = ev_t_t_4{}
	eventTypes["ev_t_d_4"] = ev_t_d_4{}
	eventTypes["ev_t_ps_4"] = ev_t_ps_4{}
	eventTypes["ev_t_pi_4"] = ev_t_pi_4{}
	eventTypes["ev_t_pt_4"] = ev_t_pt_4{}
	eventTypes["ev_t_st_4"] = ev_t_st_4{}
	eventTypes["ev_t_pst_4"] = ev_t_pst_4{}
	eventTypes["ev_t_sl_4"] = ev_t_sl_4{}
	eventTypes["ev_t_sd_4"] = ev_t_sd_4{}
	eventTypes["ev_t_ar_4"] = ev_t_ar_4{}
	eventTypes["ev_t_m_4"] = ev_t_m_4{}
	eventTypes["ev_t_mf_4"] = ev_t_mf_4{}
	eventTypes["ev_d_s_4"] = ev_d_s_4{}
	eventTypes["ev_d_i_4"] = ev_d_i_4{}
	eventTypes["ev_d_f_4"] = ev_d_f_4{}
	eventTypes["ev_d_t_4"] = ev_d_t_4{}
	eventTypes["ev_d_d_4"] = ev_d_d_4{}
	eventTypes["ev_d_ps_4"] = ev_d_ps_4{}
	eventTypes["ev_d_pi_4"] = ev_d_pi_4{}
	eventTypes["ev_d_pt_4"] = ev_d_pt_4{}
	eventTypes["ev_d_st_4"] = ev_d_st_4{}
	eventTypes["ev_d_pst_4"] = ev_d_pst_4{}
	eventTypes["ev_d_sl_4"] = ev_d_sl_4{}
	eventTypes["ev_d_sd_4"] = ev_d_sd_4{}
	eventTypes["ev_d_ar_4"] = ev_d_ar_4{}
	eventTypes["ev_d_m_4"] = ev_d_m_4{}
	eventTypes["ev_d_mf_4"] = ev_d_mf_4{}
	eventTypes["ev_ps_s_4"] = ev_ps_s_4{}
	eventTypes["ev_ps_i_4"] = ev_ps_i_4{}
	eventTypes["ev_ps_f_4"] = ev_ps_f_4{}
	eventTypes["ev_ps_t_4"] = ev_ps_t_4{}
	eventTypes["ev_ps_d_4"] = ev_ps_d_4{}
	eventTypes["ev_ps_ps_4"] = ev_ps_ps_4{}
	eventTypes["ev_ps_pi_4"] = ev_ps_pi_4{}
	eventTypes["ev_ps_pt_4"] = ev_ps_pt_4{}
	eventTypes["ev_ps_st_4"] = ev_ps_st_4{}
	eventTypes["ev_ps_pst_4"] = ev_ps_pst_4{}
	eventTypes["ev_ps_sl_4"] = ev_ps_sl_4{}
	eventTypes["ev_ps_sd_4"] = ev_ps_sd_4{}
	eventTypes["ev_ps_ar_4"] = ev_ps_ar_4{}
	eventTypes["ev_ps_m_4"] = ev_ps_m_4{}
	eventTypes["ev_ps_mf_4"] = ev_ps_mf_4{}
	eventTypes["ev_pi_s_4"] = ev_pi_s_4{}
	eventTypes["ev_pi_i_4"] = ev_pi_i_4{}
	eventTypes["ev_pi_f_4"] = ev_pi_f_4{}
	eventTypes["ev_pi_t_4"] = ev_pi_t_4{}
	eventTypes["ev_pi_d_4"] = ev_pi_d_4{}
	eventTypes["ev_pi_ps_4"] = ev_pi_ps_4{}
	eventTypes["ev_pi_pi_4"] = ev_pi_pi_4{}
	eventTypes["ev_pi_pt_4"] = ev_pi_pt_4{}
	eventTypes["ev_pi_st_4"] = ev_pi_st_4{}
	eventTypes["ev_pi_pst_4"] = ev_pi_pst_4{}
	eventTypes["ev_pi_sl_4"] = ev_pi_sl_4{}
	eventTypes["ev_pi_sd_4"] = ev_pi_sd_4{}
	eventTypes["ev_pi_ar_4"] = ev_pi_ar_4{}
	eventTypes["ev_pi_m_4"] = ev_pi_m_4{}
	eventTypes["ev_pi_mf_4"] = ev_pi_mf_4{}
	eventTypes["ev_pt_s_4"] = ev_pt_s_4{}
	eventTypes["ev_pt_i_4"] = ev_pt_i_4{}
	eventTypes["ev_pt_f_4"] = ev_pt_f_4{}
	eventTypes["ev_pt_t_4"] = ev_pt_t_4{}
	eventTypes["ev_pt_d_4"] = ev_pt_d_4{}
	eventTypes["ev_pt_ps_4"] = ev_pt_ps_4{}
	eventTypes["ev_pt_pi_4"] = ev_pt_pi_4{}
	eventTypes["ev_pt_pt_4"] = ev_pt_pt_4{}
	eventTypes["ev_pt_st_4"] = ev_pt_st_4{}
	eventTypes["ev_pt_pst_4"] = ev_pt_pst_4{}
	eventTypes["ev_pt_sl_4"] = ev_pt_sl_4{}
	eventTypes["ev_pt_sd_4"] = ev_pt_sd_4{}
	eventTypes["ev_pt_ar_4"] = ev_pt_ar_4{}
	eventTypes["ev_pt_m_4"] = ev_pt_m_4{}
	eventTypes["ev_pt_mf_4"] = ev_pt_mf_4{}
	eventTypes["ev_st_s_4"] = ev_st_s_4{}
	eventTypes["ev_st_i_4"] = ev_st_i_4{}
	eventTypes["ev_st_f_4"] = ev_st_f_4{}
	eventTypes["ev_st_t_4"] = ev_st_t_4{}
	eventTypes["ev_st_d_4"] = ev_st_d_4{}
	eventTypes["ev_st_ps_4"] = ev_st_ps_4{}
	eventTypes["ev_st_pi_4"] = ev_st_pi_4{}
	eventTypes["ev_st_pt_4"] = ev_st_pt_4{}
	eventTypes["ev_st_st_4"] = ev_st_st_4{}
	eventTypes["ev_st_pst_4"] = ev_st_pst_4{}
	eventTypes["ev_st_sl_4"] = ev_st_sl_4{}
	eventTypes["ev_st_sd_4"] = ev_st_sd_4{}
	eventTypes["ev_st_ar_4"] = ev_st_ar_4{}
	eventTypes["ev_st_m_4"] = ev_st_m_4{}
	eventTypes["ev_st_mf_4"] = ev_st_mf_4{}
	eventTypes["ev_pst_s_4"] = ev_pst_s_4{}
	eventTypes["ev_pst_i_4"] = ev_pst_i_4{}
	eventTypes["ev_pst_f_4"] = ev_pst_f_4{}
	eventTypes["ev_pst_t_4"] = ev_pst_t_4{}
	eventTypes["ev_pst_d_4"] = ev_pst_d_4{}
	eventTypes["ev_pst_ps_4"] = ev_pst_ps_4{}
	eventTypes["ev_pst_pi_4"] = ev_pst_pi_4{}
	eventTypes["ev_pst_pt_4"] = ev_pst_pt_4{}
	eventTypes["ev_pst_st_4"] = ev_pst_st_4{}
	eventTypes["ev_pst_pst_4"] = ev_pst_pst_4{}
	eventTypes["ev_pst_sl_4"] = ev_pst_sl_4{}
	eventTypes["ev_pst_sd_4"] = ev_pst_sd_4{}
	eventTypes["ev_pst_ar_4"] = ev_pst_ar_4{}
	eventTypes["ev_pst_m_4"] = ev_pst_m_4{}
	eventTypes["ev_pst_mf_4"] = ev_pst_mf_4{}
	eventTypes["ev_sl_s_4"] = ev_sl_s_4{}
	eventTypes["ev_sl_i_4"] = ev_sl_i_4{}
	eventTypes["ev_sl_f_4"] = ev_sl_f_4{}
	eventTypes["ev_sl_t_4"] = ev_sl_t_4{}
	eventTypes["ev_sl_d_4"] = ev_sl_d_4{}
	eventTypes["ev_sl_ps_4"] = ev_sl_ps_4{}
	eventTypes["ev_sl_pi_4"] = ev_sl_pi_4{}
	eventTypes["ev_sl_pt_4"] = ev_sl_pt_4{}
	eventTypes["ev_sl_st_4"] = ev_sl_st_4{}
	eventTypes["ev_sl_pst_4"] = ev_sl_pst_4{}
	eventTypes["ev_sl_sl_4"] = ev_sl_sl_4{}
	eventTypes["ev_sl_sd_4"] = ev_sl_sd_4{}
	eventTypes["ev_sl_ar_4"] = ev_sl_ar_4{}
	eventTypes["ev_sl_m_4"] = ev_sl_m_4{}
	eventTypes["ev_sl_mf_4"] = ev_sl_mf_4{}
	eventTypes["ev_sd_s_4"] = ev_sd_s_4{}
	eventTypes["ev_sd_i_4"] = ev_sd_i_4{}
	eventTypes["ev_sd_f_4"] = ev_sd_f_4{}
	eventTypes["ev_sd_t_4"] = ev_sd_t_4{}
	eventTypes["ev_sd_d_4"] = ev_sd_d_4{}
	eventTypes["ev_sd_ps_4"] = ev_sd_ps_4{}
	eventTypes["ev_sd_pi_4"] = ev_sd_pi_4{}
	eventTypes["ev_sd_pt_4"] = ev_sd_pt_4{}
	eventTypes["ev_sd_st_4"] = ev_sd_st_4{}
	eventTypes["ev_sd_pst_4"] = ev_sd_pst_4{}
	eventTypes["ev_sd_sl_4"] = ev_sd_sl_4{}
	eventTypes["ev_sd_sd_4"] = ev_sd_sd_4{}
	eventTypes["ev_sd_ar_4"] = ev_sd_ar_4{}
	eventTypes["ev_sd_m_4"] = ev_sd_m_4{}
	eventTypes["ev_sd_mf_4"] = ev_sd_mf_4{}
	eventTypes["ev_ar_s_4"] = ev_ar_s_4{}
	eventTypes["ev_ar_i_4"] = ev_ar_i_4{}
	eventTypes["ev_ar_f_4"] = ev_ar_f_4{}
	eventTypes["ev_ar_t_4"] = ev_ar_t_4{}
	eventTypes["ev_ar_d_4"] = ev_ar_d_4{}
	eventTypes["ev_ar_ps_4"] = ev_ar_ps_4{}
	eventTypes["ev_ar_pi_4"] = ev_ar_pi_4{}
	eventTypes["ev_ar_pt_4"] = ev_ar_pt_4{}
	eventTypes["ev_ar_st_4"] = ev_ar_st_4{}
	eventTypes["ev_ar_pst_4"] = ev_ar_pst_4{}
	eventTypes["ev_ar_sl_4"] = ev_ar_sl_4{}
	eventTypes["ev_ar_sd_4"] = ev_ar_sd_4{}
	eventTypes["ev_ar_ar_4"] = ev_ar_ar_4{}
	eventTypes["ev_ar_m_4"] = ev_ar_m_4{}
	eventTypes["ev_ar_mf_4"] = ev_ar_mf_4{}
	eventTypes["ev_m_s_4"] = ev_m_s_4{}
	eventTypes["ev_m_i_4"] = ev_m_i_4{}
	eventTypes["ev_m_f_4"] = ev_m_f_4{}
	eventTypes["ev_m_t_4"] = ev_m_t_4{}
	eventTypes["ev_m_d_4"] = ev_m_d_4{}
	eventTypes["ev_m_ps_4"] = ev_m_ps_4{}
	eventTypes["ev_m_pi_4"] = ev_m_pi_4{}
	eventTypes["ev_m_pt_4"] = ev_m_pt_4{}
	eventTypes["ev_m_st_4"] = ev_m_st_4{}
	eventTypes["ev_m_pst_4"] = ev_m_pst_4{}
	eventTypes["ev_m_sl_4"] = ev_m_sl_4{}
	eventTypes["ev_m_sd_4"] = ev_m_sd_4{}
	eventTypes["ev_m_ar_4"] = ev_m_ar_4{}
	eventTypes["ev_m_m_4"] = ev_m_m_4{}
	eventTypes["ev_m_mf_4"] = ev_m_mf_4{}
	eventTypes["ev_mf_s_4"] = ev_mf_s_4{}
	eventTypes["ev_mf_i_4"] = ev_mf_i_4{}
	eventTypes["ev_mf_f_4"] = ev_mf_f_4{}
	eventTypes["ev_mf_t_4"] = ev_mf_t_4{}
	eventTypes["ev_mf_d_4"] = ev_mf_d_4{}
	eventTypes["ev_mf_ps_4"] = ev_mf_ps_4{}
	eventTypes["ev_mf_pi_4"] = ev_mf_pi_4{}
	eventTypes["ev_mf_pt_4"] = ev_mf_pt_4{}
	eventTypes["ev_mf_st_4"] = ev_mf_st_4{}
	eventTypes["ev_mf_pst_4"] = ev_mf_pst_4{}
	eventTypes["ev_mf_sl_4"] = ev_mf_sl_4{}
	eventTypes["ev_mf_sd_4"] = ev_mf_sd_4{}
	eventTypes["ev_mf_ar_4"] = ev_mf_ar_4{}
	eventTypes["ev_mf_m_4"] = ev_mf_m_4{}
	eventTypes["ev_mf_mf_4"] = ev_mf_mf_4{}
	eventTypes["evr0"] = evr0{}
	eventTypes["evr1"] = evr1{}
	eventTypes["evr2"] = evr2{}
	eventTypes["evr3"] = evr3{}
	eventTypes["evr4"] = evr4{}
	eventTypes["evr5"] = evr5{}
	eventTypes["evr6"] = evr6{}
	eventTypes["evr7"] = evr7{}
	eventTypes["evr8"] = evr8{}
	eventTypes["evr9"] = evr9{}
	eventTypes["evr10"] = evr10{}
	eventTypes["evr11"] = evr11{}
	eventTypes["evr12"] = evr12{}
	eventTypes["evr13"] = evr13{}
	eventTypes["evr14"] = evr14{}
	eventTypes["evr15"] = evr15{}
	eventTypes["evr16"] = evr16{}
	eventTypes["evr17"] = evr17{}
	eventTypes["evr18"] = evr18{}
	eventTypes["evr19"] = evr19{}
	eventTypes["evr20"] = evr20{}
	eventTypes["evr21"] = evr21{}
	eventTypes["evr22"] = evr22{}
	eventTypes["evr23"] = evr23{}
	eventTypes["evr24"] = evr24{}
	eventTypes["evr25"] = evr25{}
	eventTypes["evr26"] = evr26{}
	eventTypes["evr27"] = evr27{}
	eventTypes["evr28"] = evr28{}
	eventTypes["evr29"] = evr29{}
	eventTypes["evr30"] = evr30{}
	eventTypes["evr31"] = evr31{}
	eventTypes["evr32"] = evr32{}
	eventTypes["evr33"] = evr33{}
	eventTypes["evr34"] = evr34{}
	eventTypes["evr35"] = evr35{}
	eventTypes["evr36"] = evr36{}
	eventTypes["evr37"] = evr37{}
	eventTypes["evr38"] = evr38{}
	eventTypes["evr39"] = evr39{}
	eventTypes["evr40"] = evr40{}
	eventTypes["evr41"] = evr41{}
	eventTypes["evr42"] = evr42{}
	eventTypes["evr43"] = evr43{}
	eventTypes["evr44"] = evr44{}
	eventTypes["evr45"] = evr45{}
	eventTypes["evr46"] = evr46{}
	eventTypes["evr47"] = evr47{}
	eventTypes["evr48"] = evr48{}
	eventTypes["evr49"] = evr49{}
	eventTypes["evr50"] = evr50{}
	eventTypes["evr51"] = evr51{}
	eventTypes["evr52"] = evr52{}
	eventTypes["evr53"] = evr53{}
	eventTypes["evr54"] = evr54{}
	eventTypes["evr55"] = evr55{}
	eventTypes["evr56"] = evr56{}
	eventTypes["evr57"] = evr57{}
	eventTypes["evr58"] = evr58{}
	eventTypes["evr59"] = evr59{}
	eventTypes["evr60"] = evr60{}
	eventTypes["evr61"] = evr61{}
	eventTypes["evr62"] = evr62{}
	eventTypes["evr63"] = evr63{}
	eventTypes["evr64"] = evr64{}
	eventTypes["evr65"] = evr65{}
	eventTypes["evr66"] = evr66{}
	eventTypes["evr67"] = evr67{}
	eventTypes["evr68"] = evr68{}
	eventTypes["evr69"] = evr69{}
	eventTypes["evr70"] = evr70{}
	eventTypes["evr71"] = evr71{}
	eventTypes["evr72"] = evr72{}
	eventTypes["evr73"] = evr73{}
	eventTypes["evr74"] = evr74{}
	eventTypes["evr75"] = evr75{}
	eventTypes["evr76"] = evr76{}
	eventTypes["evr77"] = evr77{}
	eventTypes["evr78"] = evr78{}
	eventTypes["evr79"] = evr79{}
	eventTypes["evr80"] = evr80{}
	eventTypes["evr81"] = evr81{}
	eventTypes["evr82"] = evr82{}
	eventTypes["evr83"] = evr83{}
	eventTypes["evr84"] = evr84{}
	eventTypes["evr85"] = evr85{}
	eventTypes["evr86"] = evr86{}
	eventTypes["evr87"] = evr87{}
	eventTypes["evr88"] = evr88{}
	eventTypes["evr89"] = evr89{}
	eventTypes["evr90"] = evr90{}
	eventTypes["evr91"] = evr91{}
	eventTypes["evr92"] = evr92{}
	eventTypes["evr93"] = evr93{}
	eventTypes["evr94"] = evr94{}
	eventTypes["evr95"] = evr95{}
	eventTypes["evr96"] = evr96{}
	eventTypes["evr97"] = evr97{}
	eventTypes["evr98"] = evr98{}
	eventTypes["evr99"] = evr99{}
	eventTypes["evr100"] = evr100{}
	eventTypes["evr101"] = evr101{}
	eventTypes["evr102"] = evr102{}
	eventTypes["evr103"] = evr103{}
	eventTypes["evr104"] = evr104{}
	eventTypes["evr105"] = evr105{}
	eventTypes["evr106"] = evr106{}
	eventTypes["evr107"] = evr107{}
	eventTypes["evr108"] = evr108{}
	eventTypes["evr109"] = evr109{}
	eventTypes["evr110"] = evr110{}
	eventTypes["evr111"] = evr111{}
	eventTypes["evr112"] = evr112{}
	eventTypes["evr113"] = evr113{}
	eventTypes["evr114"] = evr114{}
	eventTypes["evr115"] = evr115{}
	eventTypes["evr116"] = evr116{}
	eventTypes["evr117"] = evr117{}
	eventTypes["evr118"] = evr118{}
	eventTypes["evr119"] = evr119{}
	eventTypes["evr120"] = evr120{}
	eventTypes["evr121"] = evr121{}
	eventTypes["evr122"] = evr122{}
	eventTypes["evr123"] = evr123{}
	eventTypes["evr124"] = evr124{}
	eventTypes["evr125"] = evr125{}
	eventTypes["evr126"] = evr126{}
	eventTypes["evr127"] = evr127{}
	eventTypes["evr128"] = evr128{}
	eventTypes["evr129"] = evr129{}
	eventTypes["evr130"] = evr130{}
	eventTypes["evr131"] = evr131{}
	eventTypes["evr132"] = evr132{}
	eventTypes["evr133"] = evr133{}
	eventTypes["evr134"] = evr134{}
	eventTypes["evr135"] = evr135{}
	eventTypes["evr136"] = evr136{}
	eventTypes["evr137"] = evr137{}
	eventTypes["evr138"] = evr138{}
	eventTypes["evr139"] = evr139{}
	eventTypes["evr140"] = evr140{}
	eventTypes["evr141"] = evr141{}
	eventTypes["evr142"] = evr142{}
	eventTypes["evr143"] = evr143{}
	eventTypes["evr144"] = evr144{}
	eventTypes["evr145"] = evr145{}
	eventTypes["evr146"] = evr146{}
	eventTypes["evr147"] = evr147{}
	eventTypes["evr148"] = evr148{}
	eventTypes["evr149"] = evr149{}
	eventTypes["evr150"] = evr150{}
	eventTypes["evr151"] = evr151{}
	eventTypes["evr152"] = evr152{}
	eventTypes["evr153"] = evr153{}
	eventTypes["evr154"] = evr154{}
	eventTypes["evr155"] = evr155{}
	eventTypes["evr156"] = evr156{}
	eventTypes["evr157"] = evr157{}
	eventTypes["evr158"] = evr158{}
	eventTypes["evr159"] = evr159{}
	eventTypes["evm0"] = evm0{}
	eventTypes["evm1"] = evm1{}
	eventTypes["evm2"] = evm2{}
	eventTypes["evm3"] = evm3{}
	eventTypes["evm4"] = evm4{}
	eventTypes["evm5"] = evm5{}
	eventTypes["evm6"] = evm6{}
	eventTypes["evm7"] = evm7{}
	eventTypes["evm8"] = evm8{}
	eventTypes["evm9"] = evm9{}
	eventTypes["evm10"] = evm10{}
	eventTypes["evm11"] = evm11{}
	eventTypes["evm12"] = evm12{}
	eventTypes["evm13"] = evm13{}
	eventTypes["evm14"] = evm14{}
	eventTypes["evm15"] = evm15{}
	eventTypes["evm16"] = evm16{}
	eventTypes["evm17"] = evm17{}
	eventTypes["evm18"] = evm18{}
	eventTypes["evm19"] = evm19{}
	eventTypes["evm20"] = evm20{}
	eventTypes["evm21"] = evm21{}
	eventTypes["evm22"] = evm22{}
	eventTypes["evm23"] = evm23{}
}
