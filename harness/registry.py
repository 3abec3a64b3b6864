"""property id -> check function."""
import importlib

CHECKS = {
  "P01": ("chk_sim", "p01"),
  "P02": ("chk_sim", "p02"),
  "P03": ("chk_sim", "p03"),
  "P04": ("chk_pipe", "p04"),
  "P05": ("chk_pipe", "p05"),
  "P06": ("chk_pipe", "p06"),
  "P07": ("chk_filter", "p07"),
  "P08": ("chk_filter", "p08"),
  "P09": ("chk_filter", "p09"),
  "P10": ("chk_filter", "p10"),
  "P11": ("chk_pipe", "p11"),
  "P12": ("chk_enum", "p12"),
  "P13": ("chk_enum", "p13"),
  "P14": ("chk_enum", "p14"),
  "P15": ("chk_queue", "p15"),
  "P16": ("chk_io", "p16"),
  "P17": ("chk_num", "p17"),
  "P18": ("chk_num", "p18"),
  "P19": ("chk_norm", "p19"),
  "P20": ("chk_timer", "p20"),
  "P21": ("chk_tools", "p21"),
  "P22": ("chk_census", "p22"),
  "P23": ("chk_cert", "p23"),
  "P24": ("chk_show", "p24"),
  "P25": ("chk_campaign", "p25"),
}


def run(prop, ctx):
  mod, fn = CHECKS[prop]
  getattr(importlib.import_module(mod), fn)(ctx)
