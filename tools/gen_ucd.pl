#!/usr/bin/perl
# Dumps the Unicode properties used as oracle data from Perl's own copy of the
# Unicode Character Database (Unicode 15.0): PROP<TAB>start<TAB>end<TAB>value
use Unicode::UCD qw(prop_invmap charinfo);
for my $p (qw(Age Bidi_Class Bidi_Mirroring_Glyph Bidi_Paired_Bracket Bidi_Paired_Bracket_Type Joining_Type Grapheme_Cluster_Break Word_Break Sentence_Break Line_Break Script Script_Extensions East_Asian_Width General_Category Extended_Pictographic Vertical_Orientation Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base White_Space Default_Ignorable_Code_Point Indic_Syllabic_Category)) {
  my ($l, $m, $f, $d) = prop_invmap($p);
  unless ($l) { print STDERR "no $p\n"; next }
  for my $i (0..$#$l) {
    my $s = $l->[$i]; last if $s > 0x10FFFF;
    my $e = $i < $#$l ? $l->[$i+1]-1 : 0x10FFFF;
    my $v = $m->[$i];
    $v = join(' ', @$v) if ref $v;
    next if $v eq $d;
    if ($f =~ /^a/ && $v =~ /^\d+$/ ) { # adjusted
      for my $c ($s..$e) { printf "%s\t%x\t%x\t%x\n", $p, $c, $c, $v + ($c - $s); }
      next;
    }
    printf "%s\t%x\t%x\t%s\n", $p, $s, $e, $v;
  }
  print STDERR "$p format $f default $d\n";
}
