"""Reference definitions for seyfert.utils.tex_utils."""
import re



@shape("seyfert.utils.tex_utils.TeXTranslator")
class s_TeXTranslator:
    pass


@of("seyfert.utils.tex_utils.TeXTranslator.__init__", ret=False)
def r_TeXTranslator_init(self):
    self.bias_regex = re.compile('bg(ph|sp)([0-9]+)')
    self.probe_regex = re.compile('(WL|GCph|GCsp)')
    self.column_name_regex = re.compile(' (FoM|Omm|Omb|h|ns|sigma8|w0|wa) ')
    self.probe_name_to_tex = {'Lensing': '\\mathrm{WL}', 'WL': '\\mathrm{WL}', 'Void': '\\mathrm{V}', 'V': '\\mathrm{V}', 'PhotometricGalaxy': '\\mathrm{GC_{ph}}', 'GCph': '\\mathrm{GC_{ph}}', 'SpectroscopicGalaxy': '\\mathrm{GC_{sp}}', 'GCsp': '\\mathrm{GC_{sp}}', 'GCsp(Pk)': '\\mathrm{GC_{sp}}(P_k)', 'XC': '\\mathrm{XC}', 'IST_GCsp': '\\mathrm{GC_{sp}}'}
    self.aliases_probes_name_to_tex = {'WL': '\\WL', 'GCph': '\\GCph', 'GCsp': '\\GCsp'}
    self.aliases_cosmo_par_name_to_tex = {'w0': '\\wz', 'wa': '\\wa', 'Omm': '\\Omm', 'Omb': '\\Omb', 'h': '\\h', 'ns': '\\ns', 'sigma8': '\\sige', 'FoM': '\\FoM'}
    self.phys_par_name_to_tex = {'w0': 'w_0', 'wa': 'w_a', 'mnu': 'M_\\nu[\\mathrm{eV}]', 'Omm': '\\Omega_m', 'OmDE': '\\Omega_{DE}', 'Omb': '\\Omega_b', 'sigma8': '\\sigma_8', 'ns': 'n_s', 'h': 'h', 'gamma': '\\gamma', 'aIA': '\\mathcal{A}_{\\rm IA}', 'etaIA': '\\eta_{\\rm IA}', 'betaIA': '\\beta_{\\rm IA}', 'FoM': '\\mathrm{FoM}'}
    self.cosmology_name_to_tex = {'LCDM': '\\Lambda\\mathrm{CDM}', 'mnu_LCDM': '\\nu\\Lambda\\mathrm{CDM}', 'mnuLCDM': '\\nu\\Lambda\\mathrm{CDM}', 'w0_wa_CDM': 'w_0w_a\\mathrm{CDM}', 'w0waCDM': 'w_0w_a\\mathrm{CDM}', 'mnu_w0_wa_CDM': '\\nu w_0w_a\\mathrm{CDM}', 'mnuw0waCDM': '\\nu w_0w_a\\mathrm{CDM}'}
    self.probe_tex_to_name = {v: k for k, v in self.probe_name_to_tex.items()}
    self.cosmo_par_tex_to_name = {v: k for k, v in self.phys_par_name_to_tex.items()}
    self.cosmology_tex_to_name = {v: k for k, v in self.cosmology_name_to_tex.items()}


@of("seyfert.utils.tex_utils.TeXTranslator.ProbeNameToTeX")
def r_TeXTranslator_ProbeNameToTeX(self, name):
    if '+' not in name:
        tex_name = f'{self.probe_name_to_tex[name]}'
    else:
        probes = [p.strip() for p in name.split('+')]
        probe_comb_tex_string = '+'.join(['%s' % self.probe_name_to_tex[p] for p in probes])
        tex_name = f'{probe_comb_tex_string}'
    return tex_name


@of("seyfert.utils.tex_utils.TeXTranslator.ProbeTeXToName")
def r_TeXTranslator_ProbeTeXToName(self, tex_name):
    if '+' not in tex_name:
        name = self.probe_tex_to_name[tex_name]
    else:
        probes = [self.probe_tex_to_name[p.strip()] for p in tex_name.split('+')]
        name = '+'.join(probes)
    return name


@of("seyfert.utils.tex_utils.TeXTranslator.CosmoParNameToTeX")
def r_TeXTranslator_CosmoParNameToTeX(self, name):
    return self.phys_par_name_to_tex[name]


@of("seyfert.utils.tex_utils.TeXTranslator.CosmoParTeXToName")
def r_TeXTranslator_CosmoParTeXToName(self, tex_name):
    return self.cosmo_par_tex_to_name[tex_name]


@of("seyfert.utils.tex_utils.TeXTranslator.PhysParNameToTeX")
def r_TeXTranslator_PhysParNameToTeX(self, s, include_dollar=False):
    result = ''
    if '_' in s:
        result = ' '.join([self.PhysParNameToTeX(p) for p in s.split('_')])
    try:
        result = self.CosmoParNameToTeX(s)
    except KeyError:
        match = self.bias_regex.match(s)
        if match:
            bias_type, idx = match.groups()
            result = 'b^{\\mathrm{%s}}_{%s}' % (bias_type, idx)
        else:
            raise KeyError()
    finally:
        if include_dollar:
            result = '$%s$' % result
        return result


@of("seyfert.utils.tex_utils.TeXTranslator.PhysParsNamesToTeX")
def r_TeXTranslator_PhysParsNamesToTeX(self, names, include_dollar=False):
    tex_names = [self.PhysParNameToTeX(name, include_dollar=include_dollar) for name in names]
    if isinstance(names, set):
        tex_names = set(tex_names)
    return tex_names


@of("seyfert.utils.tex_utils.TeXTranslator.CosmologyNameToTeX")
def r_TeXTranslator_CosmologyNameToTeX(self, cosmology_name):
    return self.cosmology_name_to_tex[cosmology_name]


@of("seyfert.utils.tex_utils.TeXTranslator.CosmologyTeXToName")
def r_TeXTranslator_CosmologyTeXToName(self, cosmology_tex_name):
    return self.cosmology_tex_to_name[cosmology_tex_name]


@of("seyfert.utils.tex_utils.TeXTranslator.replaceFisherNamesToTeX")
def r_TeXTranslator_replaceFisherNamesToTeX(self, text, use_aliases=False):
    result = text
    result = result.replace('Cl', 'C_{\\ell}').replace('Pk', 'P_k')
    if use_aliases:
        result = re.sub('XC\\((WL|GCph|GCsp),(WL|GCph|GCsp)\\)', '\\\\xc{\\1}{\\2}', result)
        for p in set(self.probe_regex.findall(result)):
            result = result.replace(p, self.aliases_probes_name_to_tex[p])
    else:
        for p in set(self.probe_regex.findall(result)):
            result = result.replace(p, self.probe_name_to_tex[p])
        result = result.replace('XC', '\\mathrm{XC}')
    return result


@of("seyfert.utils.tex_utils.TeXTranslator.replaceCosmoParsNamesToTeX")
def r_TeXTranslator_replaceCosmoParsNamesToTeX(self, text, use_aliases=False):
    result = text
    transl_dict = self.aliases_cosmo_par_name_to_tex if use_aliases else self.phys_par_name_to_tex
    result = self.column_name_regex.sub(lambda x: ' %s ' % transl_dict[x.groups()[0]], result)
    return result


@of("seyfert.utils.tex_utils.TeXTranslator.translateToTeX")
def r_TeXTranslator_translateToTeX(self, text, use_aliases=False):
    result = self.replaceFisherNamesToTeX(text, use_aliases=use_aliases)
    result = self.replaceCosmoParsNamesToTeX(result, use_aliases=use_aliases)
    return result


@of("seyfert.utils.tex_utils.TeXTranslator.transformRawTeXTable")
def r_TeXTranslator_transformRawTeXTable(self, text, use_aliases=True):
    result = re.sub('cline\\{[0-9\\-]+\\}', 'midrule', text)
    result = self.replaceFisherNamesToTeX(result, use_aliases=use_aliases)
    result = self.replaceCosmoParsNamesToTeX(result, use_aliases=use_aliases)
    result = result.replace('n\\_bins', '\\GCsp\\, \\text{bins}')
    result = result.replace('+0.00\\%', '\\text{--}')
    result = re.sub('(\\+[0-9\\.]+\\\\%)', '\\\\positive{\\1}', result)
    result = re.sub('(\\-[0-9\\.]+\\\\%)', '\\\\negative{\\1}', result)
    return result


@of("seyfert.utils.tex_utils.TeXTranslator.toTeX")
def r_TeXTranslator_toTeX(self, text, use_aliases=False):
    return self.translateToTeX(text=text, use_aliases=use_aliases)


@of("seyfert.utils.tex_utils.TeXTranslator.translateLegendToTeX", ret=False)
def r_TeXTranslator_translateLegendToTeX(self, legend):
    for label in legend.get_texts():
        tex_label = '$%s$' % self.translateToTeX(label.get_text(), use_aliases=False)
        label.set_text(tex_label)

