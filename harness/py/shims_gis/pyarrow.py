"""present"""
